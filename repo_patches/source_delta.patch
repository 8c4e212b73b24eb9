From 94f7936dca527ed15e69bb83224cf0e677762105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:22 +0000
Subject: [PATCH 01/47] fix: don't panic on unterminated nested block comments

---
 crates/parser/src/parser/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index c972ad0..50c8398 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -115,7 +115,7 @@ fn block_comment_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError
             (
                 take_until(0.., ("(;", ";)")),
                 dispatch! {peek(opt("(;"));
-                    Some(..) => opt(block_comment_impl).void(),
+                    Some(..) => block_comment_impl.void(),
                     None => empty,
                 },
             ),
-- 
2.43.0


From 30828ba67deb46f43a9b052d7251e621f233a471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:22 +0000
Subject: [PATCH 02/47] fix: keep source text the lexer can't recognize in
 syntax tree

---
 crates/parser/src/parser/token.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index 50c8398..8626a37 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -293,9 +293,9 @@ pub(super) fn error_token<'s>(
         '$' => ('$', take_while(0.., is_id_char)).take(),
         '(' | ')' if allow_parens => alt(("(", ")")),
         '(' | ')' => fail,
-        '"' => string_impl,
+        '"' => alt((string_impl, "\"")),
         c if is_id_char(c) => take_while(1.., is_id_char),
-        _ => take_till(1.., |c: char| c == '(' || c == ')' || c.is_ascii_whitespace()),
+        _ => take_till(1.., |c: char| matches!(c, '(' | ')' | ' ' | '\t' | '\r' | '\n')),
     }
     .map(|text| tok(ERROR, text))
 }
-- 
2.43.0


From bb981f999f3beed24ee2ad8ea4e439947bb1ed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:45 +0000
Subject: [PATCH 03/47] fix: don't report syntax errors whose end is before
 start

---
 crates/parser/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/error.rs b/crates/parser/src/error.rs
index 646c727..a00b116 100644
--- a/crates/parser/src/error.rs
+++ b/crates/parser/src/error.rs
@@ -29,7 +29,7 @@ impl FromRecoverableError<Input<'_>, SyntaxError> for SyntaxError {
         input: &Input,
         mut e: SyntaxError,
     ) -> Self {
-        e.end = input.location();
+        e.end = input.location().max(e.start);
         e
     }
 }
-- 
2.43.0


From cd303ed24ae7973a9b37966856b21c5567fcdc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:21 +0000
Subject: [PATCH 04/47] fix: report tokens that are outside of modules as
 syntax errors

---
 crates/parser/src/parser/mod.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/mod.rs b/crates/parser/src/parser/mod.rs
index 4d42126..4b9d914 100644
--- a/crates/parser/src/parser/mod.rs
+++ b/crates/parser/src/parser/mod.rs
@@ -43,7 +43,11 @@ impl<'s> Parser<'s> {
     pub fn parse_to_green(&mut self) -> GreenNode {
         let (_, tree, errors) = root.recoverable_parse(*self.input);
         self.errors = errors;
-        tree.expect("parser should always succeed even if there are syntax errors")
+        let tree = tree.expect("parser should always succeed even if there are syntax errors");
+        if self.errors.is_empty() {
+            self.errors.extend(unexpected_root_token(&tree));
+        }
+        tree
     }
 
     /// Retrieve syntax errors.
@@ -87,6 +91,24 @@ fn root(input: &mut Input) -> PResult<GreenNode, SyntaxError> {
         })
 }
 
+/// Tokens that don't belong to any modules (such as redundant right parens) are put in root silently.
+/// They must be reported if there're no other errors which can explain them.
+fn unexpected_root_token(root: &GreenNode) -> Option<SyntaxError> {
+    let mut start = 0;
+    for child in root.children() {
+        let end = start + usize::from(child.text_len());
+        if child.kind() == SyntaxKind::ERROR.into() {
+            return Some(SyntaxError {
+                start,
+                end,
+                message: StrContext::Label("unexpected token"),
+            });
+        }
+        start = end;
+    }
+    None
+}
+
 /// Note: use `retry_once` instead if you're using `retry` in `repeat` or `repeat_till`.
 // copied and modified from https://github.com/winnow-rs/winnow/blob/95e0c100656a98a0ff3bc8420fc8844edff6b615/src/combinator/parser.rs#L963
 fn retry<'s, P, const N: usize>(
-- 
2.43.0


From 7bab98f8997e3e12b82c59a64919956f7d75dfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:41 +0000
Subject: [PATCH 05/47] fix: report unterminated string literals

---
 crates/parser/src/parser/token.rs | 33 +++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index 8626a37..bb24f5b 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -5,7 +5,7 @@ use winnow::{
     ascii::{hex_digit0, line_ending, multispace1, take_escaped, till_line_ending},
     combinator::{alt, dispatch, empty, eof, fail, not, opt, peek, preceded, repeat, repeat_till},
     error::{ErrMode, FromRecoverableError, StrContext, StrContextValue},
-    stream::{AsChar, Recover, Stream},
+    stream::{AsChar, Location, Recover, Stream},
     token::{any, none_of, one_of, take_till, take_until, take_while},
     PResult, Parser,
 };
@@ -173,14 +173,27 @@ pub fn is_id_char(c: char) -> bool {
 }
 
 pub(super) fn string(input: &mut Input) -> GreenResult {
-    string_impl
+    let token_start = input.checkpoint();
+    let start = input.location();
+    let (terminated, text) = string_impl
+        .with_taken()
         .context(StrContext::Expected(StrContextValue::Description(
             "string literal",
         )))
-        .parse_next(input)
-        .map(|text| tok(STRING, text))
+        .parse_next(input)?;
+    if !terminated {
+        let err_start = input.checkpoint();
+        let error = SyntaxError {
+            start,
+            end: input.location(),
+            message: StrContext::Label("string literal"),
+        };
+        input.record_err(&token_start, &err_start, ErrMode::Backtrack(error))?;
+    }
+    Ok(tok(STRING, text))
 }
-fn string_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
+/// Returns whether the string is terminated by double quote.
+fn string_impl(input: &mut Input) -> PResult<bool, SyntaxError> {
     (
         '"',
         take_escaped(
@@ -191,9 +204,13 @@ fn string_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
                 _ => empty,
             },
         ),
-        alt(("\"", peek(line_ending), eof)),
+        alt((
+            '"'.value(true),
+            peek(line_ending).value(false),
+            eof.value(false),
+        )),
     )
-        .take()
+        .map(|(_, _, terminated)| terminated)
         .parse_next(input)
 }
 
@@ -293,7 +310,7 @@ pub(super) fn error_token<'s>(
         '$' => ('$', take_while(0.., is_id_char)).take(),
         '(' | ')' if allow_parens => alt(("(", ")")),
         '(' | ')' => fail,
-        '"' => alt((string_impl, "\"")),
+        '"' => alt((string_impl.take(), "\"")),
         c if is_id_char(c) => take_while(1.., is_id_char),
         _ => take_till(1.., |c: char| matches!(c, '(' | ')' | ' ' | '\t' | '\r' | '\n')),
     }
-- 
2.43.0


From af63e4cd50b0bd6872fbc4c7eb7bb9695228b421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:18 +0000
Subject: [PATCH 06/47] fix: accept digit separators in signed hex floats and
 nan payloads

---
 crates/parser/src/parser/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index bb24f5b..4261562 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -283,7 +283,7 @@ fn float_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
     )
         .take()
         .verify(|text: &str| {
-            let is_hex = text.starts_with("0x");
+            let is_hex = text.contains("0x");
             let mut chars = text.chars();
             while let Some(c) = chars.next() {
                 if c == '_'
-- 
2.43.0


From 997254b19ace543dc7f73aec351e9e3e7a6a1e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:06 +0000
Subject: [PATCH 07/47] fix: keep memory sharing keyword when formatting

---
 crates/formatter/src/printer/ty.rs | 9 +++++++++
 crates/syntax/src/ast/ty.rs        | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/crates/formatter/src/printer/ty.rs b/crates/formatter/src/printer/ty.rs
index 688adc5..33e02da 100644
--- a/crates/formatter/src/printer/ty.rs
+++ b/crates/formatter/src/printer/ty.rs
@@ -85,6 +85,15 @@ impl DocGen for Limits {
                 docs.append(&mut trivias);
             }
             docs.push(Doc::text(max.to_string()));
+            trivias = format_trivias_after_token(max, ctx);
+        }
+        if let Some(share) = self.share() {
+            if trivias.is_empty() {
+                docs.push(Doc::space());
+            } else {
+                docs.append(&mut trivias);
+            }
+            docs.push(Doc::text(share.to_string()));
         }
         Doc::list(docs)
     }
diff --git a/crates/syntax/src/ast/ty.rs b/crates/syntax/src/ast/ty.rs
index e05474a..e411e27 100644
--- a/crates/syntax/src/ast/ty.rs
+++ b/crates/syntax/src/ast/ty.rs
@@ -128,6 +128,10 @@ impl Limits {
             })
             .nth(1)
     }
+    #[inline]
+    pub fn share(&self) -> Option<SyntaxToken> {
+        token(&self.syntax, SyntaxKind::SHARE)
+    }
 }
 impl AstNode for Limits {
     type Language = WatLanguage;
-- 
2.43.0


From e307b0bb0195c79d2418a25ae48f042b3972b94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:12 +0000
Subject: [PATCH 08/47] fix: keep comments between params and results when
 formatting

---
 crates/formatter/src/printer/module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index d211a12..946692b 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -1220,7 +1220,7 @@ impl DocGen for TypeUse {
         if let Some(param) = params.next() {
             if trivias.is_empty() && !docs.is_empty() {
                 docs.push(Doc::soft_line().nest(ctx.indent_width));
-            } else if self.l_paren_token().is_some() {
+            } else {
                 docs.append(&mut trivias);
             }
             docs.push(param.doc(ctx));
@@ -1239,7 +1239,7 @@ impl DocGen for TypeUse {
         if let Some(result) = results.next() {
             if trivias.is_empty() && !docs.is_empty() {
                 docs.push(Doc::space());
-            } else if self.l_paren_token().is_some() {
+            } else {
                 docs.append(&mut trivias);
             }
             docs.push(result.doc(ctx));
-- 
2.43.0


From 8a731b5a8eb0d01973da4ca5d187a2934344543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:07 +0000
Subject: [PATCH 09/47] fix: keep comments at the start of flat if blocks when
 formatting

---
 crates/formatter/src/printer/instr.rs |  3 +++
 crates/formatter/src/printer/mod.rs   | 10 +++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/formatter/src/printer/instr.rs b/crates/formatter/src/printer/instr.rs
index 82fb6a7..3ee0e7a 100644
--- a/crates/formatter/src/printer/instr.rs
+++ b/crates/formatter/src/printer/instr.rs
@@ -216,6 +216,9 @@ impl DocGen for BlockIfThen {
             docs.append(&mut trivias);
             docs.push(Doc::text("then"));
             trivias = format_trivias_after_token(keyword, ctx);
+        } else {
+            // there is no `then` keyword if it isn't folded
+            trivias = format_leading_trivias(self.syntax().children_with_tokens(), ctx);
         }
         if let Some(ident) = self.ident_token() {
             if trivias.is_empty() {
diff --git a/crates/formatter/src/printer/mod.rs b/crates/formatter/src/printer/mod.rs
index 2a918a8..931c291 100644
--- a/crates/formatter/src/printer/mod.rs
+++ b/crates/formatter/src/printer/mod.rs
@@ -201,9 +201,13 @@ where
     docs
 }
 fn format_trivias_after_token(token: SyntaxToken, ctx: &Ctx) -> Vec<Doc<'static>> {
-    let trivias = token
-        .siblings_with_tokens(Direction::Next)
-        .skip(1)
+    format_leading_trivias(token.siblings_with_tokens(Direction::Next).skip(1), ctx)
+}
+fn format_leading_trivias(
+    elements: impl Iterator<Item = SyntaxElement>,
+    ctx: &Ctx,
+) -> Vec<Doc<'static>> {
+    let trivias = elements
         .map_while(|element| match element {
             SyntaxElement::Token(token)
                 if matches!(
-- 
2.43.0


From 2c7b0c1bbe1d375fe14732b94707855d5ac084ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:03 +0000
Subject: [PATCH 10/47] fix: don't print redundant line breaks before
 abbreviated offsets and elem exprs

---
 crates/formatter/src/printer/module.rs | 32 +++++++++++++++-----------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index 946692b..e6fd40b 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -53,13 +53,12 @@ impl DocGen for Elem {
             trivias = format_trivias_after_node(index, ctx);
         });
         self.elem_exprs().for_each(|elem_expr| {
-            let has_keyword = elem_expr.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
             }
-            if has_keyword {
+            if elem_expr.keyword().is_some() {
                 docs.push(elem_expr.doc(ctx).nest(ctx.indent_width));
             } else {
                 docs.push(elem_expr.doc(ctx));
@@ -85,10 +84,14 @@ impl DocGen for ElemExpr {
             docs.push(Doc::text("item"));
             trivias = format_trivias_after_token(keyword, ctx);
         }
+        let has_keyword = self.keyword().is_some();
         docs.push(
             Doc::list(self.instrs().fold(vec![], |mut docs, instr| {
                 if trivias.is_empty() {
-                    docs.push(Doc::hard_line());
+                    // line break before abbreviated form is printed by parent
+                    if has_keyword {
+                        docs.push(Doc::hard_line());
+                    }
                 } else {
                     docs.append(&mut trivias);
                 }
@@ -130,13 +133,12 @@ impl DocGen for ElemList {
             trivias = format_trivias_after_token(ref_type, ctx);
         }
         self.elem_exprs().for_each(|elem_expr| {
-            let has_keyword = elem_expr.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
             }
-            if has_keyword {
+            if elem_expr.keyword().is_some() {
                 docs.push(elem_expr.doc(ctx).nest(ctx.indent_width));
             } else {
                 docs.push(elem_expr.doc(ctx));
@@ -573,13 +575,12 @@ impl DocGen for ModuleFieldData {
             trivias = format_trivias_after_node(mem_use, ctx);
         }
         if let Some(offset) = self.offset() {
-            let has_keyword = offset.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
             }
-            if has_keyword {
+            if offset.keyword().is_some() {
                 docs.push(offset.doc(ctx).nest(ctx.indent_width));
             } else {
                 docs.push(offset.doc(ctx));
@@ -642,13 +643,12 @@ impl DocGen for ModuleFieldElem {
             trivias = format_trivias_after_node(table_use, ctx);
         }
         if let Some(offset) = self.offset() {
-            let has_keyword = offset.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
             }
-            if has_keyword {
+            if offset.keyword().is_some() {
                 docs.push(offset.doc(ctx).nest(ctx.indent_width));
             } else {
                 docs.push(offset.doc(ctx));
@@ -1139,10 +1139,14 @@ impl DocGen for Offset {
             docs.push(Doc::text("offset"));
             trivias = format_trivias_after_token(keyword, ctx);
         }
+        let has_keyword = self.keyword().is_some();
         docs.push(
             Doc::list(self.instrs().fold(vec![], |mut docs, instr| {
                 if trivias.is_empty() {
-                    docs.push(Doc::hard_line());
+                    // line break before abbreviated form is printed by parent
+                    if has_keyword {
+                        docs.push(Doc::hard_line());
+                    }
                 } else {
                     docs.append(&mut trivias);
                 }
-- 
2.43.0


From 6518db51ff3b03fcee15e972f38928c2351361f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:08 +0000
Subject: [PATCH 11/47] fix: resolve labels through operands and branches of if

---
 crates/service/src/binder.rs | 49 +++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 79a2b49..19fcb05 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -99,6 +99,22 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
             })
     }
 
+    /// Get blocks whose label is visible for the given instruction, from the innermost one.
+    fn get_label_scopes(node: &SyntaxNode) -> impl Iterator<Item = SyntaxNode> {
+        node.ancestors()
+            .zip(node.ancestors().skip(1))
+            .filter(|(child, parent)| match parent.kind() {
+                SyntaxKind::BLOCK_BLOCK | SyntaxKind::BLOCK_LOOP => true,
+                // label of "if" isn't visible in its condition
+                SyntaxKind::BLOCK_IF => matches!(
+                    child.kind(),
+                    SyntaxKind::BLOCK_IF_THEN | SyntaxKind::BLOCK_IF_ELSE
+                ),
+                _ => false,
+            })
+            .map(|(_, parent)| parent)
+    }
+
     let root = SyntaxNode::new_root(db.root(uri));
     let mut module_field_id = 0;
     let mut symbols = Vec::with_capacity(2);
@@ -281,6 +297,7 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                         else {
                             continue;
                         };
+                        let label_scopes = get_label_scopes(&node).collect::<Vec<_>>();
                         node.children()
                             .filter_map(|node| {
                                 create_ref_symbol(
@@ -291,25 +308,21 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                                 )
                             })
                             .for_each(|symbol| {
-                                symbols.push(symbol.clone());
-                                let mut current = &symbol;
-                                let mut levels = 0;
-                                while let Some(
-                                    parent @ SymbolItem {
-                                        key,
-                                        kind: SymbolItemKind::BlockDef,
-                                        ..
+                                blocks.extend(label_scopes.iter().zip(0..).map(
+                                    |(block, level)| {
+                                        (
+                                            symbol.key.clone(),
+                                            block.clone().into(),
+                                            Idx {
+                                                num: Some(level),
+                                                name: token(block, SyntaxKind::IDENT).map(
+                                                    |token| db.ident(token.text().to_string()),
+                                                ),
+                                            },
+                                        )
                                     },
-                                ) = symbols.iter().find(|sym| {
-                                    sym.kind == SymbolItemKind::BlockDef
-                                        && sym.key == current.region
-                                }) {
-                                    let mut idx = parent.idx.clone();
-                                    idx.num = Some(levels);
-                                    blocks.push((symbol.key.clone(), key.clone(), idx));
-                                    current = parent;
-                                    levels += 1;
-                                }
+                                ));
+                                symbols.push(symbol);
                             });
                     }
                     Some(
-- 
2.43.0


From a816ccbeaf744a7a87a3d9c86b9acac616ca00a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:14 +0000
Subject: [PATCH 12/47] fix: report duplicated names of tables

---
 crates/service/src/checker/dup_names.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/service/src/checker/dup_names.rs b/crates/service/src/checker/dup_names.rs
index ceca7a3..2ad1a1c 100644
--- a/crates/service/src/checker/dup_names.rs
+++ b/crates/service/src/checker/dup_names.rs
@@ -32,6 +32,7 @@ pub fn check(
                         | SymbolItemKind::Type
                         | SymbolItemKind::GlobalDef
                         | SymbolItemKind::MemoryDef
+                        | SymbolItemKind::TableDef
                         | SymbolItemKind::BlockDef
                 )
             })
-- 
2.43.0


From b191ac75dfb160861ee3a7df8fe900e9c817f551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:45 +0000
Subject: [PATCH 13/47] fix: rename and find references of what is denoted only

---
 crates/service/src/features/references.rs | 10 ++++----
 crates/service/src/features/rename.rs     | 28 +++++++++--------------
 2 files changed, 15 insertions(+), 23 deletions(-)

diff --git a/crates/service/src/features/references.rs b/crates/service/src/features/references.rs
index 06d1dfb..923ddd7 100644
--- a/crates/service/src/features/references.rs
+++ b/crates/service/src/features/references.rs
@@ -370,14 +370,12 @@ fn get_block_refs(
     }
     locations.extend(
         symbol_table
-            .blocks
+            .symbols
             .iter()
-            .filter(|(_, def_key, _)| def_key == &def_symbol.key)
-            .filter_map(|(ref_key, _, _)| {
+            .filter(|symbol| {
                 symbol_table
-                    .symbols
-                    .iter()
-                    .find(|symbol| &symbol.key == ref_key)
+                    .find_block_def(&symbol.key)
+                    .is_some_and(|def| def == def_symbol)
             })
             .map(|symbol| create_location_by_symbol(params, line_index, symbol, root)),
     );
diff --git a/crates/service/src/features/rename.rs b/crates/service/src/features/rename.rs
index b978d7f..37d1632 100644
--- a/crates/service/src/features/rename.rs
+++ b/crates/service/src/features/rename.rs
@@ -71,6 +71,11 @@ impl LanguageService {
             .symbols
             .iter()
             .find(|symbol| symbol.key == symbol_key)?;
+        let block_def = match symbol.kind {
+            SymbolItemKind::BlockDef => Some(symbol),
+            SymbolItemKind::BlockRef => symbol_table.find_block_def(&symbol_key),
+            _ => None,
+        };
         let text_edits = symbol_table
             .symbols
             .iter()
@@ -88,27 +93,16 @@ impl LanguageService {
                 | SymbolItemKind::MemoryRef
                 | SymbolItemKind::TableDef
                 | SymbolItemKind::TableRef => {
-                    symbol.region == sym.region
-                        && symbol.idx.name.is_some_and(|name| name == old_name)
-                }
-                SymbolItemKind::BlockDef => {
-                    symbol == *sym
-                        || symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                            &symbol_key == ref_key && def_key == &sym.key
-                        })
+                    symbol.region == sym.region && sym.idx.name.is_some_and(|name| name == old_name)
                 }
+                SymbolItemKind::BlockDef => block_def.is_some_and(|def| def == *sym),
                 SymbolItemKind::BlockRef => {
                     symbol == *sym
-                        || symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                            &sym.key == ref_key && def_key == &symbol.key
+                        || block_def.is_some_and(|def| {
+                            symbol_table
+                                .find_block_def(&sym.key)
+                                .is_some_and(|other| other == def)
                         })
-                        || symbol_table
-                            .find_block_def(&symbol_key)
-                            .is_some_and(|def_symbol| {
-                                symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                                    &sym.key == ref_key && def_key == &def_symbol.key
-                                })
-                            })
                 }
                 SymbolItemKind::Module => false,
             })
-- 
2.43.0


From 95cd48961c30810d6e3ec861fe76e144b8efbb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:47 +0000
Subject: [PATCH 14/47] fix: don't mix labels up with locals of same name

---
 crates/service/src/checker/dup_names.rs | 12 ++++++++----
 crates/service/src/features/rename.rs   | 16 +++++++++++-----
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/crates/service/src/checker/dup_names.rs b/crates/service/src/checker/dup_names.rs
index 2ad1a1c..67d5833 100644
--- a/crates/service/src/checker/dup_names.rs
+++ b/crates/service/src/checker/dup_names.rs
@@ -38,15 +38,19 @@ pub fn check(
             })
             .fold(FxHashMap::default(), |mut map, symbol| {
                 if let Some(name) = symbol.idx.name {
-                    map.entry((name, &symbol.region))
-                        .or_insert_with(|| Vec::with_capacity(1))
-                        .push(symbol);
+                    map.entry((
+                        name,
+                        &symbol.region,
+                        symbol.kind == SymbolItemKind::BlockDef,
+                    ))
+                    .or_insert_with(|| Vec::with_capacity(1))
+                    .push(symbol);
                 }
                 map
             })
             .iter()
             .filter(|(_, symbols)| symbols.len() > 1)
-            .flat_map(|((name, _), symbols)| {
+            .flat_map(|((name, ..), symbols)| {
                 let name = service.lookup_ident(*name);
                 symbols.iter().map(move |symbol| Diagnostic {
                     range: helpers::rowan_range_to_lsp_range(
diff --git a/crates/service/src/features/rename.rs b/crates/service/src/features/rename.rs
index 37d1632..276bf08 100644
--- a/crates/service/src/features/rename.rs
+++ b/crates/service/src/features/rename.rs
@@ -71,10 +71,14 @@ impl LanguageService {
             .symbols
             .iter()
             .find(|symbol| symbol.key == symbol_key)?;
-        let block_def = match symbol.kind {
-            SymbolItemKind::BlockDef => Some(symbol),
-            SymbolItemKind::BlockRef => symbol_table.find_block_def(&symbol_key),
-            _ => None,
+        let is_label = matches!(
+            symbol.kind,
+            SymbolItemKind::BlockDef | SymbolItemKind::BlockRef
+        );
+        let block_def = if symbol.kind == SymbolItemKind::BlockDef {
+            Some(symbol)
+        } else {
+            symbol_table.find_block_def(&symbol_key)
         };
         let text_edits = symbol_table
             .symbols
@@ -93,7 +97,9 @@ impl LanguageService {
                 | SymbolItemKind::MemoryRef
                 | SymbolItemKind::TableDef
                 | SymbolItemKind::TableRef => {
-                    symbol.region == sym.region && sym.idx.name.is_some_and(|name| name == old_name)
+                    !is_label
+                        && symbol.region == sym.region
+                        && sym.idx.name.is_some_and(|name| name == old_name)
                 }
                 SymbolItemKind::BlockDef => block_def.is_some_and(|def| def == *sym),
                 SymbolItemKind::BlockRef => {
-- 
2.43.0


From b5eb02433e5315a2c7a02e983bf93f5b9e51112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:50 +0000
Subject: [PATCH 15/47] fix: recognize hexadecimal indexes and digit separators
 in indexes

---
 crates/service/src/binder.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 19fcb05..c136b4e 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -65,7 +65,7 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                 node.children_with_tokens()
                     .filter_map(|it| it.into_token())
                     .find(|it| matches!(it.kind(), SyntaxKind::UNSIGNED_INT | SyntaxKind::INT))
-                    .and_then(|token| token.text().parse().ok())
+                    .and_then(|token| parse_index(token.text()))
                     .map(|num| SymbolItem {
                         green: node.green().into(),
                         key: node.into(),
@@ -508,6 +508,15 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
     Rc::new(SymbolTable { symbols, blocks })
 }
 
+fn parse_index(text: &str) -> Option<u32> {
+    let text = text.replace('_', "");
+    if let Some(hex) = text.strip_prefix("0x") {
+        u32::from_str_radix(hex, 16).ok()
+    } else {
+        text.parse().ok()
+    }
+}
+
 impl SymbolTable {
     pub fn find_defs(&self, key: &SymbolItemKey) -> Option<impl Iterator<Item = &SymbolItem>> {
         self.symbols
-- 
2.43.0


From 48f8efdf5b493369cd370f1252c381060dae56f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:03 +0000
Subject: [PATCH 16/47] fix: count columns of positions in UTF-16 code units
 and clamp positions to lines

---
 .../service/src/features/semantic_tokens.rs   | 13 +++---
 crates/service/src/files.rs                   | 12 ++---
 crates/service/src/helpers.rs                 | 45 ++++++++++++-------
 3 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/crates/service/src/features/semantic_tokens.rs b/crates/service/src/features/semantic_tokens.rs
index 8519e5b..0302de0 100644
--- a/crates/service/src/features/semantic_tokens.rs
+++ b/crates/service/src/features/semantic_tokens.rs
@@ -1,7 +1,6 @@
 use crate::{binder::SymbolTablesCtx, files::FilesCtx, helpers, InternUri, LanguageService};
-use line_index::LineCol;
 use lsp_types::{
-    SemanticToken, SemanticTokens, SemanticTokensParams, SemanticTokensRangeParams,
+    Position, SemanticToken, SemanticTokens, SemanticTokensParams, SemanticTokensRangeParams,
     SemanticTokensRangeResult, SemanticTokensResult,
 };
 use rowan::ast::support;
@@ -50,10 +49,10 @@ impl LanguageService {
             .take_while(|token| token.text_range().start() < end)
             .peekable();
         if let Some(token) = tokens.peek() {
-            LineCol {
+            Position {
                 line: delta_line,
-                col: prev_start,
-            } = line_index.line_col(token.text_range().start());
+                character: prev_start,
+            } = helpers::rowan_pos_to_lsp_pos(&line_index, token.text_range().start());
         }
         let tokens = self.build_tokens(uri, tokens, &mut delta_line, &mut prev_start);
         Some(SemanticTokensRangeResult::Tokens(SemanticTokens {
@@ -87,7 +86,7 @@ impl LanguageService {
                     None
                 };
                 let range = token.text_range();
-                let col = line_index.line_col(range.start()).col;
+                let col = helpers::rowan_pos_to_lsp_pos(&line_index, range.start()).character;
                 Some(SemanticToken {
                     delta_line: mem::replace(delta_line, block_comment_lines.unwrap_or_default()),
                     delta_start: col
@@ -99,7 +98,7 @@ impl LanguageService {
                                 col
                             },
                         ),
-                    length: range.len().into(),
+                    length: token.text().encode_utf16().count() as u32,
                     token_type,
                     token_modifiers_bitset: 0,
                 })
diff --git a/crates/service/src/files.rs b/crates/service/src/files.rs
index aa0c0d9..aef36bc 100644
--- a/crates/service/src/files.rs
+++ b/crates/service/src/files.rs
@@ -1,6 +1,6 @@
-use crate::InternUri;
+use crate::{helpers, InternUri};
 use line_index::{LineIndex, TextSize};
-use lsp_types::{Diagnostic, DiagnosticSeverity, Position, Range, Uri};
+use lsp_types::{Diagnostic, DiagnosticSeverity, Range, Uri};
 use rowan::GreenNode;
 use std::rc::Rc;
 use wat_parser::Parser;
@@ -38,12 +38,12 @@ fn parse(db: &dyn FilesCtx, uri: InternUri) -> (GreenNode, Vec<Diagnostic>) {
         .errors()
         .iter()
         .map(|error| {
-            let start = line_index.line_col(TextSize::new(error.start as u32));
-            let end = line_index.line_col(TextSize::new(error.end as u32));
+            let start = TextSize::new(error.start as u32);
+            let end = TextSize::new(error.end as u32);
             Diagnostic {
                 range: Range::new(
-                    Position::new(start.line, start.col),
-                    Position::new(end.line, end.col),
+                    helpers::rowan_pos_to_lsp_pos(&line_index, start),
+                    helpers::rowan_pos_to_lsp_pos(&line_index, end),
                 ),
                 severity: Some(DiagnosticSeverity::ERROR),
                 source: Some("wat".into()),
diff --git a/crates/service/src/helpers.rs b/crates/service/src/helpers.rs
index 6dd22dc..a6db5c8 100644
--- a/crates/service/src/helpers.rs
+++ b/crates/service/src/helpers.rs
@@ -1,10 +1,14 @@
-use line_index::{LineCol, LineIndex};
+use line_index::{LineCol, LineIndex, WideEncoding, WideLineCol};
 use lsp_types::{Position, Range};
 use rowan::{TextRange, TextSize};
 
 pub fn rowan_pos_to_lsp_pos(line_index: &LineIndex, pos: TextSize) -> Position {
     let line_col = line_index.line_col(pos);
-    Position::new(line_col.line, line_col.col)
+    // columns are counted in UTF-16 code units, as required by LSP by default
+    let col = line_index
+        .to_wide(WideEncoding::Utf16, line_col)
+        .map_or(line_col.col, |line_col| line_col.col);
+    Position::new(line_col.line, col)
 }
 
 pub fn rowan_range_to_lsp_range(line_index: &LineIndex, range: TextRange) -> Range {
@@ -15,23 +19,34 @@ pub fn rowan_range_to_lsp_range(line_index: &LineIndex, range: TextRange) -> Ran
 }
 
 pub fn lsp_pos_to_rowan_pos(line_index: &LineIndex, pos: Position) -> Option<TextSize> {
-    line_index.offset(LineCol {
+    let line_start = line_index.offset(LineCol {
         line: pos.line,
-        col: pos.character,
-    })
+        col: 0,
+    })?;
+    let line_end = line_index
+        .offset(LineCol {
+            line: pos.line + 1,
+            col: 0,
+        })
+        .map_or(line_index.len(), |next| next - TextSize::new(1));
+    // positions after the end of line default back to the end of line
+    let col = line_index
+        .to_utf8(
+            WideEncoding::Utf16,
+            WideLineCol {
+                line: pos.line,
+                col: pos.character,
+            },
+        )
+        .map_or(u32::MAX, |line_col| line_col.col);
+    Some(line_start + TextSize::new(col).min(line_end - line_start))
 }
 
 pub fn lsp_range_to_rowan_range(line_index: &LineIndex, range: Range) -> Option<TextRange> {
-    line_index
-        .offset(LineCol {
-            line: range.start.line,
-            col: range.start.character,
-        })
-        .zip(line_index.offset(LineCol {
-            line: range.end.line,
-            col: range.end.character,
-        }))
-        .map(|(start, end)| TextRange::new(TextSize::new(start.into()), TextSize::new(end.into())))
+    lsp_pos_to_rowan_pos(line_index, range.start)
+        .zip(lsp_pos_to_rowan_pos(line_index, range.end))
+        .filter(|(start, end)| start <= end)
+        .map(|(start, end)| TextRange::new(start, end))
 }
 
 pub(crate) mod ast {
-- 
2.43.0


From 233d7b221fad421e31c47b72756d96e39894af7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:15 +0000
Subject: [PATCH 17/47] fix: compute semantic tokens from positions instead of
 counting line breaks of some tokens

---
 .../service/src/features/semantic_tokens.rs   | 56 ++++++-------------
 1 file changed, 17 insertions(+), 39 deletions(-)

diff --git a/crates/service/src/features/semantic_tokens.rs b/crates/service/src/features/semantic_tokens.rs
index 0302de0..272fd3f 100644
--- a/crates/service/src/features/semantic_tokens.rs
+++ b/crates/service/src/features/semantic_tokens.rs
@@ -14,15 +14,12 @@ impl LanguageService {
         params: SemanticTokensParams,
     ) -> Option<SemanticTokensResult> {
         let uri = self.uri(params.text_document.uri);
-        let mut delta_line = 0;
-        let mut prev_start = 0;
         let tokens = self.build_tokens(
             uri,
             SyntaxNode::new_root(self.root(uri))
                 .descendants_with_tokens()
                 .filter_map(SyntaxElement::into_token),
-            &mut delta_line,
-            &mut prev_start,
+            Position::default(),
         );
         Some(SemanticTokensResult::Tokens(SemanticTokens {
             result_id: None,
@@ -40,21 +37,20 @@ impl LanguageService {
         let start = helpers::lsp_pos_to_rowan_pos(&line_index, params.range.start)?;
         let end = helpers::lsp_pos_to_rowan_pos(&line_index, params.range.end)?;
 
-        let mut delta_line = 0;
-        let mut prev_start = 0;
         let mut tokens = SyntaxNode::new_root(self.root(uri))
             .descendants_with_tokens()
             .filter_map(SyntaxElement::into_token)
             .skip_while(|token| token.text_range().end() <= start)
             .take_while(|token| token.text_range().start() < end)
             .peekable();
-        if let Some(token) = tokens.peek() {
-            Position {
-                line: delta_line,
-                character: prev_start,
-            } = helpers::rowan_pos_to_lsp_pos(&line_index, token.text_range().start());
+        let origin = tokens
+            .peek()
+            .map(|token| helpers::rowan_pos_to_lsp_pos(&line_index, token.text_range().start()))
+            .unwrap_or_default();
+        let mut tokens = self.build_tokens(uri, tokens, origin);
+        if let Some(token) = tokens.first_mut() {
+            token.delta_line += origin.line;
         }
-        let tokens = self.build_tokens(uri, tokens, &mut delta_line, &mut prev_start);
         Some(SemanticTokensRangeResult::Tokens(SemanticTokens {
             result_id: None,
             data: tokens,
@@ -65,39 +61,21 @@ impl LanguageService {
         &self,
         uri: InternUri,
         tokens: impl Iterator<Item = SyntaxToken>,
-        delta_line: &mut u32,
-        prev_start: &mut u32,
+        mut prev: Position,
     ) -> Vec<SemanticToken> {
         let line_index = self.line_index(uri);
         tokens
             .filter_map(|token| {
-                if token.kind() == SyntaxKind::WHITESPACE {
-                    let lines = token.text().chars().filter(|c| *c == '\n').count() as u32;
-                    if lines > 0 {
-                        *delta_line += lines;
-                        *prev_start = 0;
-                    }
-                    return None;
-                }
                 let token_type = self.token_type(uri, &token)?;
-                let block_comment_lines = if token.kind() == SyntaxKind::BLOCK_COMMENT {
-                    Some(token.text().chars().filter(|c| *c == '\n').count() as u32)
-                } else {
-                    None
-                };
-                let range = token.text_range();
-                let col = helpers::rowan_pos_to_lsp_pos(&line_index, range.start()).character;
+                let start = helpers::rowan_pos_to_lsp_pos(&line_index, token.text_range().start());
+                let prev = mem::replace(&mut prev, start);
                 Some(SemanticToken {
-                    delta_line: mem::replace(delta_line, block_comment_lines.unwrap_or_default()),
-                    delta_start: col
-                        - mem::replace(
-                            prev_start,
-                            if block_comment_lines.is_some_and(|lines| lines > 0) {
-                                0
-                            } else {
-                                col
-                            },
-                        ),
+                    delta_line: start.line - prev.line,
+                    delta_start: if start.line == prev.line {
+                        start.character - prev.character
+                    } else {
+                        start.character
+                    },
                     length: token.text().encode_utf16().count() as u32,
                     token_type,
                     token_modifiers_bitset: 0,
-- 
2.43.0


From 75ecff44b67383ff6491de3599e2b4136b9d4721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:53 +0000
Subject: [PATCH 18/47] fix: resolve indexes in elem segments, table uses,
 exported globals and call_indirect

---
 crates/service/src/binder.rs | 44 +++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index c136b4e..bcbe0b6 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -326,8 +326,14 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                             });
                     }
                     Some(
-                        "table.get" | "table.set" | "table.size" | "table.grow" | "table.fill"
-                        | "table.copy",
+                        "table.get"
+                        | "table.set"
+                        | "table.size"
+                        | "table.grow"
+                        | "table.fill"
+                        | "table.copy"
+                        | "call_indirect"
+                        | "return_call_indirect",
                     ) => {
                         let Some(region) = node
                             .ancestors()
@@ -438,7 +444,39 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                     symbols.push(symbol);
                 }
             }
-            SyntaxKind::EXPORT_DESC_TABLE => {
+            SyntaxKind::EXPORT_DESC_GLOBAL => {
+                if let Some(symbol) = node
+                    .ancestors()
+                    .find(|node| node.kind() == SyntaxKind::MODULE)
+                    .map(SymbolItemKey::from)
+                    .zip(
+                        node.children()
+                            .find(|child| child.kind() == SyntaxKind::INDEX),
+                    )
+                    .and_then(|(region, index)| {
+                        create_ref_symbol(db, index, region, SymbolItemKind::GlobalRef)
+                    })
+                {
+                    symbols.push(symbol);
+                }
+            }
+            SyntaxKind::ELEM_LIST => {
+                let Some(region) = node
+                    .ancestors()
+                    .find(|node| node.kind() == SyntaxKind::MODULE)
+                    .map(SymbolItemKey::from)
+                else {
+                    continue;
+                };
+                symbols.extend(
+                    node.children()
+                        .filter(|child| child.kind() == SyntaxKind::INDEX)
+                        .filter_map(|index| {
+                            create_ref_symbol(db, index, region.clone(), SymbolItemKind::Call)
+                        }),
+                );
+            }
+            SyntaxKind::EXPORT_DESC_TABLE | SyntaxKind::TABLE_USE => {
                 if let Some(symbol) = node
                     .ancestors()
                     .find(|node| node.kind() == SyntaxKind::MODULE)
-- 
2.43.0


From 5eaf4b121f856f5c2ed550e5f67efc4ded107881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:01 +0000
Subject: [PATCH 19/47] fix: resolve functions listed in inline element
 segments

---
 crates/service/src/binder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index bcbe0b6..019a2a8 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -460,7 +460,7 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                     symbols.push(symbol);
                 }
             }
-            SyntaxKind::ELEM_LIST => {
+            SyntaxKind::ELEM | SyntaxKind::ELEM_LIST => {
                 let Some(region) = node
                     .ancestors()
                     .find(|node| node.kind() == SyntaxKind::MODULE)
-- 
2.43.0


From ac68093a8a0cdb1d2e92dfdc12517321272e072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:49 +0000
Subject: [PATCH 20/47] fix: check operands of calls to functions declared by
 type or import, and of select

---
 crates/service/src/checker/typeck.rs      | 4 +++-
 crates/service/src/data_set/instr_meta.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 616fcdb..cbd4876 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -15,6 +15,7 @@ use rowan::{
     },
     TextRange,
 };
+use std::iter;
 use wat_syntax::{
     ast::{Instr, PlainInstr},
     SyntaxKind, SyntaxNode,
@@ -299,7 +300,8 @@ fn resolve_expected_types(
                     symbol.key.ptr.text_range(),
                     "parameter originally defined here".into(),
                 ))
-            });
+            })
+            .chain(iter::repeat(None));
         service.get_func_sig(uri, func.clone().into()).map(|sig| {
             sig.params
                 .iter()
diff --git a/crates/service/src/data_set/instr_meta.rs b/crates/service/src/data_set/instr_meta.rs
index 5af71df..6ab6cd2 100644
--- a/crates/service/src/data_set/instr_meta.rs
+++ b/crates/service/src/data_set/instr_meta.rs
@@ -41,7 +41,7 @@ pub(crate) static INSTR_METAS: LazyLock<FxHashMap<&'static str, InstrMeta>> = La
         "select",
         InstrMeta {
             bin_op: "0x1C",
-            operands_count: 1,
+            operands_count: 0,
             params: vec![
                 OperandType::Generic,
                 OperandType::Generic,
-- 
2.43.0


From 4b5d8c248ee7cacab9764496754705153261857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:35 +0000
Subject: [PATCH 21/47] fix: check calls to functions without params and
 results

---
 crates/service/src/types_analyzer.rs | 47 +++++++++++++---------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/crates/service/src/types_analyzer.rs b/crates/service/src/types_analyzer.rs
index 3e12a08..64a9b8a 100644
--- a/crates/service/src/types_analyzer.rs
+++ b/crates/service/src/types_analyzer.rs
@@ -83,30 +83,27 @@ fn get_func_sig(
     symbol: SymbolItemWithGreenEq,
 ) -> Option<FuncSig> {
     debug_assert!(matches!(symbol.kind, SymbolItemKind::Func));
-    symbol
-        .green
-        .children()
-        .find_map(|child| match child {
-            NodeOrToken::Node(node) if node.kind() == SyntaxKind::TYPE_USE.into() => Some(node),
-            _ => None,
-        })
-        .and_then(|type_use| {
-            if type_use.children().any(|child| {
-                let kind = child.kind();
-                kind == SyntaxKind::PARAM.into() || kind == SyntaxKind::RESULT.into()
-            }) {
-                Some(db.extract_sig(type_use.to_owned()))
-            } else {
-                let node = symbol.key.ptr.to_node(&SyntaxNode::new_root(db.root(uri)));
-                let symbol_table = db.symbol_table(uri);
-                child::<TypeUse>(&node)
-                    .and_then(|type_use| type_use.index())
-                    .and_then(|idx| symbol_table.find_defs(&idx.syntax().clone().into()))
-                    .and_then(|mut symbols| symbols.next())
-                    .and_then(|symbol| helpers::ast::find_func_type_of_type_def(&symbol.green))
-                    .map(|func_type| db.extract_sig(func_type))
-            }
-        })
+    let Some(type_use) = symbol.green.children().find_map(|child| match child {
+        NodeOrToken::Node(node) if node.kind() == SyntaxKind::TYPE_USE.into() => Some(node),
+        _ => None,
+    }) else {
+        return Some(FuncSig::default());
+    };
+    if type_use.children().any(|child| {
+        let kind = child.kind();
+        kind == SyntaxKind::PARAM.into() || kind == SyntaxKind::RESULT.into()
+    }) {
+        Some(db.extract_sig(type_use.to_owned()))
+    } else {
+        let node = symbol.key.ptr.to_node(&SyntaxNode::new_root(db.root(uri)));
+        let symbol_table = db.symbol_table(uri);
+        child::<TypeUse>(&node)
+            .and_then(|type_use| type_use.index())
+            .and_then(|idx| symbol_table.find_defs(&idx.syntax().clone().into()))
+            .and_then(|mut symbols| symbols.next())
+            .and_then(|symbol| helpers::ast::find_func_type_of_type_def(&symbol.green))
+            .map(|func_type| db.extract_sig(func_type))
+    }
 }
 
 fn render_func_header(
@@ -215,7 +212,7 @@ impl TryFrom<GreenNode> for ValType {
     }
 }
 
-#[derive(Clone, Debug, PartialEq, Eq)]
+#[derive(Clone, Debug, Default, PartialEq, Eq)]
 pub(crate) struct FuncSig {
     pub(crate) params: Vec<(ValType, Option<String>)>,
     pub(crate) results: Vec<ValType>,
-- 
2.43.0


From 998338639c4dddb06ee87a3f94ecce7883294a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:35 +0000
Subject: [PATCH 22/47] fix: don't report operands count when types of some
 operands are unknown

---
 crates/service/src/checker/typeck.rs | 52 +++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index cbd4876..5927d9c 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -46,6 +46,7 @@ pub fn check_folded(
     } else {
         meta.map(|meta| meta.operands_count).unwrap_or_default()
     };
+    let mut is_unknown = false;
     let received_types =
         instr
             .operands()
@@ -53,7 +54,13 @@ pub fn check_folded(
             .fold(vec![], |mut received, operand| {
                 if let Some(instr) = operand.instr() {
                     if let Some(types) = resolve_type(service, uri, symbol_table, &instr) {
-                        received.extend(types.into_iter().map(|ty| (ty, operand.clone())));
+                        if !is_unknown {
+                            received.extend(types.into_iter().map(|ty| (ty, operand.clone())));
+                        }
+                    } else {
+                        // we don't know how many values it produces,
+                        // so neither the count nor the types of the following can be checked
+                        is_unknown = true;
                     }
                 } else if meta.is_some() {
                     diags.push(Diagnostic {
@@ -79,7 +86,7 @@ pub fn check_folded(
             .operands()
             .filter(|operand| operand.instr().is_none())
             .count();
-    if expected_count != received_count {
+    if !is_unknown && expected_count != received_count {
         diags.push(Diagnostic {
             range: helpers::rowan_range_to_lsp_range(line_index, instr.syntax().text_range()),
             severity: Some(DiagnosticSeverity::ERROR),
@@ -147,6 +154,8 @@ pub fn check_stacked(
     }
 
     let mut types_stack = Vec::<(_, Instr)>::with_capacity(2);
+    // after instructions whose effects on stack aren't known, there may be more values than those in `types_stack`
+    let mut is_unknown = false;
     children::<Instr>(node).for_each(|instr| {
         if let Instr::Plain(plain_instr) = &instr {
             let Some(instr_name) = plain_instr.instr_name() else {
@@ -156,6 +165,8 @@ pub fn check_stacked(
             let Some(params) =
                 resolve_expected_types(service, uri, symbol_table, plain_instr, meta)
             else {
+                types_stack.clear();
+                is_unknown = true;
                 return;
             };
             let expected_count = if plain_instr.l_paren_token().is_some() {
@@ -166,20 +177,31 @@ pub fn check_stacked(
             let pop_count = if let Some(count) = types_stack.len().checked_sub(expected_count) {
                 count
             } else {
-                diags.push(Diagnostic {
-                    range: helpers::rowan_range_to_lsp_range(
-                        line_index,
-                        instr.syntax().text_range(),
-                    ),
-                    severity: Some(DiagnosticSeverity::ERROR),
-                    source: Some("wat".into()),
-                    message: build_incorrect_operands_count_msg(expected_count, types_stack.len()),
-                    ..Default::default()
-                });
+                if !is_unknown {
+                    diags.push(Diagnostic {
+                        range: helpers::rowan_range_to_lsp_range(
+                            line_index,
+                            instr.syntax().text_range(),
+                        ),
+                        severity: Some(DiagnosticSeverity::ERROR),
+                        source: Some("wat".into()),
+                        message: build_incorrect_operands_count_msg(
+                            expected_count,
+                            types_stack.len(),
+                        ),
+                        ..Default::default()
+                    });
+                }
+                0
+            };
+            let below_known = if is_unknown {
+                expected_count.saturating_sub(types_stack.len())
+            } else {
                 0
             };
             let type_mismatches = params
                 .iter()
+                .skip(below_known)
                 .zip(types_stack.drain(pop_count..))
                 .filter_map(|pair| {
                     if let (
@@ -220,7 +242,13 @@ pub fn check_stacked(
 
             if let Some(types) = resolve_type(service, uri, symbol_table, &instr) {
                 types_stack.extend(types.into_iter().map(|ty| (ty, instr.clone())));
+            } else {
+                types_stack.clear();
+                is_unknown = true;
             }
+        } else {
+            types_stack.clear();
+            is_unknown = true;
         }
     });
 }
-- 
2.43.0


From 7a7647e4405c69e420103ec09b24c3950a111a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:24 +0000
Subject: [PATCH 23/47] fix: accept instructions whose indexes of tables or
 memory arguments are omitted

---
 .../service/src/checker/literal_operands.rs   | 37 +++++++++++++++----
 crates/service/src/checker/typeck.rs          | 23 +++++++++++-
 2 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/crates/service/src/checker/literal_operands.rs b/crates/service/src/checker/literal_operands.rs
index 77c7a88..72f80ae 100644
--- a/crates/service/src/checker/literal_operands.rs
+++ b/crates/service/src/checker/literal_operands.rs
@@ -11,7 +11,7 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
     let Some(instr_name) = token(node, SyntaxKind::INSTR_NAME) else {
         return;
     };
-    let mut operands = children::<Operand>(node);
+    let mut operands = children::<Operand>(node).peekable();
 
     macro_rules! check_operand {
         ($kind:pat, $msg:literal) => {
@@ -33,6 +33,11 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
     }
 
     match instr_name.text() {
+        // index of table can be omitted
+        "table.get" | "table.set" | "table.grow" | "table.size" | "table.fill" | "table.copy"
+            if operands
+                .peek()
+                .is_some_and(|operand| operand.instr().is_some()) => {}
         "call" | "local.get" | "local.set" | "local.tee" | "global.get" | "global.set"
         | "table.get" | "table.set" | "ref.func" | "memory.init" | "data.drop" | "elem.drop"
         | "table.grow" | "table.size" | "table.fill" | "br" | "br_if" => {
@@ -55,10 +60,15 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
                 SyntaxKind::IDENT | SyntaxKind::INT,
                 "expected identifier or unsigned integer"
             );
-            check_operand!(
-                SyntaxKind::IDENT | SyntaxKind::INT,
-                "expected identifier or unsigned integer"
-            );
+            if !operands
+                .peek()
+                .is_some_and(|operand| operand.instr().is_some())
+            {
+                check_operand!(
+                    SyntaxKind::IDENT | SyntaxKind::INT,
+                    "expected identifier or unsigned integer"
+                );
+            }
         }
         "i32.load" | "i64.load" | "f32.load" | "f64.load" | "i32.load8_s" | "i32.load8_u"
         | "i32.load16_s" | "i32.load16_u" | "i64.load8_s" | "i64.load8_u" | "i64.load16_s"
@@ -68,7 +78,13 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         | "v128.load16x4_s" | "v128.load16x4_u" | "v128.load32x2_s" | "v128.load32x2_u"
         | "v128.load8_splat" | "v128.load16_splat" | "v128.load32_splat" | "v128.load64_splat"
         | "v128.store" => {
-            check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
+            // memory arguments can be omitted
+            if operands
+                .peek()
+                .is_some_and(|operand| operand.instr().is_none())
+            {
+                check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
+            }
         }
         "i8x16.shuffle"
         | "i8x16.extract_lane_s"
@@ -92,7 +108,14 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         }
         "v128.load8_lane" | "v128.load16_lane" | "v128.load32_lane" | "v128.load64_lane"
         | "v128.store8_lane" | "v128.store16_lane" | "v128.store32_lane" | "v128.store64_lane" => {
-            check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
+            if operands
+                .clone()
+                .nth(1)
+                .is_some_and(|operand| operand.instr().is_none())
+            {
+                check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
+                operands.next_if(|operand| operand.mem_arg().is_some());
+            }
             check_operand!(
                 SyntaxKind::IDENT | SyntaxKind::INT,
                 "expected identifier or unsigned integer"
diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 5927d9c..800be8f 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -44,7 +44,16 @@ pub fn check_folded(
     let skipped_count = if is_call {
         1
     } else {
-        meta.map(|meta| meta.operands_count).unwrap_or_default()
+        let operands_count = meta.map(|meta| meta.operands_count).unwrap_or_default();
+        if let Some(max) = max_optional_immediates(instr_name.text()) {
+            instr
+                .operands()
+                .take_while(|operand| operand.instr().is_none())
+                .take(max)
+                .count()
+        } else {
+            operands_count
+        }
     };
     let mut is_unknown = false;
     let received_types =
@@ -347,6 +356,18 @@ fn resolve_expected_types(
     }
 }
 
+/// Indexes of tables and memories, and memory arguments can be omitted.
+fn max_optional_immediates(instr_name: &str) -> Option<usize> {
+    match instr_name {
+        "table.get" | "table.set" | "table.grow" | "table.size" | "table.fill" => Some(1),
+        "table.copy" | "table.init" => Some(2),
+        _ => instr_name
+            .split_once('.')
+            .filter(|(_, op)| op.starts_with("load") || op.starts_with("store"))
+            .map(|(_, op)| if op.ends_with("_lane") { 3 } else { 2 }),
+    }
+}
+
 fn build_incorrect_operands_count_msg(expected: usize, received: usize) -> String {
     format!(
         "expected {expected} {}, found {received}",
-- 
2.43.0


From 7a9dc306ea08ccafa09bce52261e42327b36fa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:21 +0000
Subject: [PATCH 24/47] fix: list modules in document symbols in order,
 including those without fields

---
 crates/service/src/features/document_symbol.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crates/service/src/features/document_symbol.rs b/crates/service/src/features/document_symbol.rs
index bade8e2..8cfaba1 100644
--- a/crates/service/src/features/document_symbol.rs
+++ b/crates/service/src/features/document_symbol.rs
@@ -160,18 +160,17 @@ impl LanguageService {
                         .push(lsp_symbol);
                 }
             });
-        let mut lsp_symbols = symbols_map
-            .into_values()
-            .filter_map(|mut lsp_symbol| {
+        let lsp_symbols = symbol_table
+            .symbols
+            .iter()
+            .filter_map(|symbol| symbols_map.remove(&symbol.key))
+            .map(|mut lsp_symbol| {
                 if let Some(children) = &mut lsp_symbol.children {
                     children.reverse();
-                    Some(lsp_symbol)
-                } else {
-                    None
                 }
+                lsp_symbol
             })
-            .collect::<Vec<_>>();
-        lsp_symbols.reverse();
+            .collect();
         Some(DocumentSymbolResponse::Nested(lsp_symbols))
     }
 }
-- 
2.43.0


From 07fe19d7e5019a5a6edab37052a74c006f6f3d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:42 +0000
Subject: [PATCH 25/47] fix: answer selection ranges for each position

---
 .../service/src/features/selection_range.rs   | 37 ++++++++++++-------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/crates/service/src/features/selection_range.rs b/crates/service/src/features/selection_range.rs
index bef3700..69ee824 100644
--- a/crates/service/src/features/selection_range.rs
+++ b/crates/service/src/features/selection_range.rs
@@ -1,7 +1,7 @@
 use super::{find_meaningful_token, FilesCtx};
 use crate::{helpers, LanguageService};
 use line_index::LineIndex;
-use lsp_types::{SelectionRange, SelectionRangeParams};
+use lsp_types::{Range, SelectionRange, SelectionRangeParams};
 use wat_syntax::SyntaxNode;
 
 impl LanguageService {
@@ -13,19 +13,28 @@ impl LanguageService {
             params
                 .positions
                 .into_iter()
-                .filter_map(|position| {
-                    find_meaningful_token(self, uri, &root, position).map(|token| SelectionRange {
-                        range: helpers::rowan_range_to_lsp_range(&line_index, token.text_range()),
-                        parent: token.parent().map(|parent| {
-                            Box::new(SelectionRange {
-                                range: helpers::rowan_range_to_lsp_range(
-                                    &line_index,
-                                    parent.text_range(),
-                                ),
-                                parent: get_parent_range(parent, &line_index),
-                            })
-                        }),
-                    })
+                .map(|position| {
+                    find_meaningful_token(self, uri, &root, position)
+                        .map(|token| SelectionRange {
+                            range: helpers::rowan_range_to_lsp_range(
+                                &line_index,
+                                token.text_range(),
+                            ),
+                            parent: token.parent().map(|parent| {
+                                Box::new(SelectionRange {
+                                    range: helpers::rowan_range_to_lsp_range(
+                                        &line_index,
+                                        parent.text_range(),
+                                    ),
+                                    parent: get_parent_range(parent, &line_index),
+                                })
+                            }),
+                        })
+                        // results must correspond to positions one by one
+                        .unwrap_or_else(|| SelectionRange {
+                            range: Range::new(position, position),
+                            parent: None,
+                        })
                 })
                 .collect(),
         )
-- 
2.43.0


From d5fc91ad607b7aa227d2cbb7160fbb3631545b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:49 +0000
Subject: [PATCH 26/47] fix: don't glue a number that follows memory argument
 in quickfix

---
 .../src/refactorings/fix_invalid_mem_arg.rs   | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/crates/service/src/refactorings/fix_invalid_mem_arg.rs b/crates/service/src/refactorings/fix_invalid_mem_arg.rs
index 17f7600..e0caa15 100644
--- a/crates/service/src/refactorings/fix_invalid_mem_arg.rs
+++ b/crates/service/src/refactorings/fix_invalid_mem_arg.rs
@@ -31,29 +31,29 @@ pub fn act(
                         }
                         _ => None,
                     });
-                    if let Some(range) = children
+                    if let Some((eq, range)) = children
                         .next()
-                        .filter(|element| {
-                            if let SyntaxElement::Token(token) = element {
-                                token.kind() == SyntaxKind::ERROR
-                                    && token.text().strip_prefix('=').is_some_and(|rest| {
-                                        rest.chars().all(|c| c.is_ascii_digit())
-                                    })
-                            } else {
-                                false
-                            }
+                        .and_then(SyntaxElement::into_token)
+                        .filter(|token| {
+                            token.kind() == SyntaxKind::ERROR
+                                && token
+                                    .text()
+                                    .strip_prefix('=')
+                                    .is_some_and(|rest| rest.chars().all(|c| c.is_ascii_digit()))
                         })
-                        .and(range)
+                        .zip(range)
                     {
                         text_edits.push(TextEdit {
                             range: helpers::rowan_range_to_lsp_range(line_index, range),
                             new_text: String::new(),
                         });
-                        if let Some(range) = check_after_eq(&mut children) {
-                            text_edits.push(TextEdit {
-                                range: helpers::rowan_range_to_lsp_range(line_index, range),
-                                new_text: String::new(),
-                            });
+                        if eq.text() == "=" {
+                            if let Some(range) = check_after_eq(&mut children) {
+                                text_edits.push(TextEdit {
+                                    range: helpers::rowan_range_to_lsp_range(line_index, range),
+                                    new_text: String::new(),
+                                });
+                            }
                         }
                         break;
                     }
-- 
2.43.0


From bb14b813e44071499565b4071228c28c1a036f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:08 +0000
Subject: [PATCH 27/47] fix: keep comments when splitting or joining params,
 results and locals

---
 .../src/refactorings/func_header_split.rs     | 37 +++++++++-------
 crates/service/src/refactorings/mod.rs        | 17 +++++++
 .../service/src/refactorings/params_join.rs   | 44 ++++++++++---------
 3 files changed, 62 insertions(+), 36 deletions(-)

diff --git a/crates/service/src/refactorings/func_header_split.rs b/crates/service/src/refactorings/func_header_split.rs
index ed7a23a..7e5283c 100644
--- a/crates/service/src/refactorings/func_header_split.rs
+++ b/crates/service/src/refactorings/func_header_split.rs
@@ -1,3 +1,4 @@
+use super::push_element;
 use crate::{files::FilesCtx, helpers, InternUri, LanguageService};
 use line_index::LineIndex;
 use lsp_types::{CodeAction, CodeActionKind, TextEdit, WorkspaceEdit};
@@ -11,14 +12,11 @@ pub fn act(
     node: &SyntaxNode,
     kind: SyntaxKind,
 ) -> Option<CodeAction> {
-    let types = node
+    let types_count = node
         .children()
         .filter(|child| child.kind() == SyntaxKind::VAL_TYPE)
-        .collect::<Vec<_>>();
-    let [first, rest @ ..] = &types[..] else {
-        return None;
-    };
-    if rest.is_empty() {
+        .count();
+    if types_count < 2 {
         return None;
     }
 
@@ -28,16 +26,23 @@ pub fn act(
         SyntaxKind::LOCAL => "local",
         _ => return None,
     };
-    let new_text = rest
-        .iter()
-        .fold(format!("({keyword} {first})"), |mut new_text, ty| {
-            new_text.push_str(" (");
-            new_text.push_str(keyword);
-            new_text.push(' ');
-            new_text.push_str(&ty.to_string());
-            new_text.push(')');
-            new_text
-        });
+    let mut new_text = String::new();
+    let mut is_first = true;
+    for element in node.children_with_tokens() {
+        match element.kind() {
+            SyntaxKind::VAL_TYPE if is_first => is_first = false,
+            SyntaxKind::VAL_TYPE => {
+                new_text.push_str(") (");
+                new_text.push_str(keyword);
+            }
+            SyntaxKind::L_PAREN | SyntaxKind::R_PAREN => {
+                new_text.push_str(&element.to_string());
+                continue;
+            }
+            _ => {}
+        }
+        push_element(&mut new_text, &element);
+    }
 
     #[expect(clippy::mutable_key_type)]
     let mut changes = HashMap::with_capacity(1);
diff --git a/crates/service/src/refactorings/mod.rs b/crates/service/src/refactorings/mod.rs
index 7de13dc..6a7aad4 100644
--- a/crates/service/src/refactorings/mod.rs
+++ b/crates/service/src/refactorings/mod.rs
@@ -1,3 +1,20 @@
+use wat_syntax::{SyntaxElement, SyntaxKind};
+
 pub mod fix_invalid_mem_arg;
 pub mod func_header_split;
 pub mod params_join;
+
+/// Append an element other than whitespaces to the text that is being composed,
+/// so comments won't be lost in refactorings.
+fn push_element(text: &mut String, element: &SyntaxElement) {
+    if element.kind() == SyntaxKind::WHITESPACE {
+        return;
+    }
+    if !text.ends_with(['(', '\n']) {
+        text.push(' ');
+    }
+    text.push_str(&element.to_string());
+    if element.kind() == SyntaxKind::LINE_COMMENT {
+        text.push('\n');
+    }
+}
diff --git a/crates/service/src/refactorings/params_join.rs b/crates/service/src/refactorings/params_join.rs
index bfd66af..5edacc8 100644
--- a/crates/service/src/refactorings/params_join.rs
+++ b/crates/service/src/refactorings/params_join.rs
@@ -1,9 +1,10 @@
+use super::push_element;
 use crate::{files::FilesCtx, helpers, InternUri, LanguageService};
 use line_index::LineIndex;
 use lsp_types::{CodeAction, CodeActionKind, TextEdit, WorkspaceEdit};
 use rowan::TextRange;
 use std::collections::HashMap;
-use wat_syntax::{SyntaxKind, SyntaxNode};
+use wat_syntax::{SyntaxElement, SyntaxKind, SyntaxNode};
 
 pub fn act(
     service: &LanguageService,
@@ -20,27 +21,36 @@ pub fn act(
     let [first_node, ..] = &params[..] else {
         return None;
     };
-    let types = params
+    let types_count = params
         .iter()
         .flat_map(|param| {
             param
                 .children()
                 .filter(|child| child.kind() == SyntaxKind::VAL_TYPE)
         })
-        .collect::<Vec<_>>();
-    let [first, rest @ ..] = &types[..] else {
-        return None;
-    };
-    if rest.is_empty() {
+        .count();
+    if types_count < 2 {
         return None;
     }
 
-    let mut new_text = rest
-        .iter()
-        .fold(format!("(param {first}"), |mut new_text, ty| {
-            new_text.push(' ');
-            new_text.push_str(&ty.to_string());
-            new_text
+    let params_range = TextRange::new(
+        first_node.text_range().start(),
+        params.last().unwrap_or(first_node).text_range().end(),
+    );
+    let mut new_text = String::from("(param");
+    node.children_with_tokens()
+        .filter(|element| params_range.contains_range(element.text_range()))
+        .for_each(|element| match element {
+            SyntaxElement::Node(param) => param
+                .children_with_tokens()
+                .filter(|child| {
+                    !matches!(
+                        child.kind(),
+                        SyntaxKind::L_PAREN | SyntaxKind::KEYWORD | SyntaxKind::R_PAREN
+                    )
+                })
+                .for_each(|child| push_element(&mut new_text, &child)),
+            SyntaxElement::Token(..) => push_element(&mut new_text, &element),
         });
     new_text.push(')');
 
@@ -49,13 +59,7 @@ pub fn act(
     changes.insert(
         service.lookup_uri(uri),
         vec![TextEdit {
-            range: helpers::rowan_range_to_lsp_range(
-                line_index,
-                TextRange::new(
-                    first_node.text_range().start(),
-                    params.last().unwrap_or(first_node).text_range().end(),
-                ),
-            ),
+            range: helpers::rowan_range_to_lsp_range(line_index, params_range),
             new_text,
         }],
     );
-- 
2.43.0


From a15a2add5ea49254c28e74a78c2dc02917f73ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:23 +0000
Subject: [PATCH 28/47] fix: accept several results of blocks

---
 crates/parser/src/parser/instr.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index 306794d..ae06598 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -33,7 +33,15 @@ fn block_instr(input: &mut Input) -> GreenResult {
 
 fn block_type(input: &mut Input) -> GreenResult {
     alt((
-        result.map(|child| node(BLOCK_TYPE, [child])),
+        repeat::<_, _, Vec<_>, _, _>(1.., trivias_prefixed(result)).map(|results| {
+            let is_single = results.len() == 1;
+            let children = results.into_iter().flatten().collect::<Vec<_>>();
+            if is_single {
+                node(BLOCK_TYPE, children)
+            } else {
+                node(BLOCK_TYPE, [node(TYPE_USE, children)])
+            }
+        }),
         type_use.map(|child| node(BLOCK_TYPE, [child])),
     ))
     .parse_next(input)
-- 
2.43.0


From 9988dc7dd2c37601f961cda5438e4e66b7ef6355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:41 +0000
Subject: [PATCH 29/47] fix: accept several exports, and exports before import,
 of globals, memories and tables

---
 crates/formatter/src/printer/module.rs | 118 ++++++++++---------------
 crates/parser/src/parser/module.rs     |  42 ++++-----
 2 files changed, 61 insertions(+), 99 deletions(-)

diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index e6fd40b..c02d5be 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -729,24 +729,17 @@ impl DocGen for ModuleFieldFunc {
             docs.push(Doc::text(ident.to_string()));
             trivias = format_trivias_after_token(ident, ctx);
         }
-        if let Some(import) = self.import() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(import.doc(ctx));
-            trivias = format_trivias_after_node(import, ctx);
-        }
-        self.exports().for_each(|export| {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(export.doc(ctx));
-            trivias = format_trivias_after_node(export, ctx);
-        });
+        let (imports, exports) = self
+            .syntax()
+            .children()
+            .filter(|child| matches!(child.kind(), SyntaxKind::IMPORT | SyntaxKind::EXPORT))
+            .partition::<Vec<_>, _>(|child| child.kind() == SyntaxKind::IMPORT);
+        format_imports_and_exports(
+            imports.into_iter().chain(exports),
+            &mut docs,
+            &mut trivias,
+            ctx,
+        );
         if let Some(type_use) = self.type_use() {
             if trivias.is_empty() {
                 if type_use.keyword().is_some() {
@@ -820,24 +813,7 @@ impl DocGen for ModuleFieldGlobal {
             docs.push(Doc::text(ident.to_string()));
             trivias = format_trivias_after_token(ident, ctx);
         }
-        if let Some(import) = self.import() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(import.doc(ctx));
-            trivias = format_trivias_after_node(import, ctx);
-        }
-        if let Some(export) = self.export() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(export.doc(ctx));
-            trivias = format_trivias_after_node(export, ctx);
-        }
+        format_imports_and_exports(self.syntax().children(), &mut docs, &mut trivias, ctx);
         if let Some(global_type) = self.global_type() {
             if trivias.is_empty() {
                 docs.push(Doc::space());
@@ -934,24 +910,7 @@ impl DocGen for ModuleFieldMemory {
             docs.push(Doc::text(ident.to_string()));
             trivias = format_trivias_after_token(ident, ctx);
         }
-        if let Some(import) = self.import() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(import.doc(ctx));
-            trivias = format_trivias_after_node(import, ctx);
-        }
-        if let Some(export) = self.export() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(export.doc(ctx));
-            trivias = format_trivias_after_node(export, ctx);
-        }
+        format_imports_and_exports(self.syntax().children(), &mut docs, &mut trivias, ctx);
         if let Some(memory_type) = self.memory_type() {
             if trivias.is_empty() {
                 docs.push(Doc::space());
@@ -1026,24 +985,7 @@ impl DocGen for ModuleFieldTable {
             docs.push(Doc::text(ident.to_string()));
             trivias = format_trivias_after_token(ident, ctx);
         }
-        if let Some(import) = self.import() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(import.doc(ctx));
-            trivias = format_trivias_after_node(import, ctx);
-        }
-        if let Some(export) = self.export() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(export.doc(ctx));
-            trivias = format_trivias_after_node(export, ctx);
-        }
+        format_imports_and_exports(self.syntax().children(), &mut docs, &mut trivias, ctx);
         if let Some(table_type) = self.table_type() {
             if trivias.is_empty() {
                 docs.push(Doc::space());
@@ -1293,3 +1235,35 @@ fn format_export_desc(
     docs.push(Doc::text(")"));
     Doc::list(docs)
 }
+
+fn format_imports_and_exports(
+    children: impl Iterator<Item = SyntaxNode>,
+    docs: &mut Vec<Doc<'static>>,
+    trivias: &mut Vec<Doc<'static>>,
+    ctx: &Ctx,
+) {
+    children.for_each(|child| {
+        let (doc, trivias_after) = match child.kind() {
+            SyntaxKind::IMPORT => {
+                let Some(import) = Import::cast(child) else {
+                    return;
+                };
+                (import.doc(ctx), format_trivias_after_node(import, ctx))
+            }
+            SyntaxKind::EXPORT => {
+                let Some(export) = Export::cast(child) else {
+                    return;
+                };
+                (export.doc(ctx), format_trivias_after_node(export, ctx))
+            }
+            _ => return,
+        };
+        if trivias.is_empty() {
+            docs.push(Doc::space());
+        } else {
+            docs.append(trivias);
+        }
+        docs.push(doc);
+        *trivias = trivias_after;
+    });
+}
diff --git a/crates/parser/src/parser/module.rs b/crates/parser/src/parser/module.rs
index 5bbade9..bbd1fe1 100644
--- a/crates/parser/src/parser/module.rs
+++ b/crates/parser/src/parser/module.rs
@@ -213,27 +213,23 @@ fn module_field_global(input: &mut Input) -> GreenResult {
         l_paren,
         trivias_prefixed(keyword("global")),
         opt(trivias_prefixed(ident)),
-        opt(trivias_prefixed(import)), // postpone syntax error for using import with export or instr
-        opt(trivias_prefixed(export)),
+        repeat::<_, _, Vec<_>, _, _>(0.., trivias_prefixed(alt((import, export)))), // postpone syntax error for using import with export or instr
         must(retry_once(global_type, [])),
         repeat::<_, _, Vec<_>, _, _>(0.., retry_once(instr, [])),
         r_paren,
     )
         .parse_next(input)
         .map(
-            |(l_paren, mut keyword, id, import, export, ty, instrs, r_paren)| {
+            |(l_paren, mut keyword, id, imports_or_exports, ty, instrs, r_paren)| {
                 let mut children = Vec::with_capacity(7);
                 children.push(l_paren);
                 children.append(&mut keyword);
                 if let Some(mut id) = id {
                     children.append(&mut id);
                 }
-                if let Some(mut import) = import {
-                    children.append(&mut import);
-                }
-                if let Some(mut export) = export {
-                    children.append(&mut export);
-                }
+                imports_or_exports
+                    .into_iter()
+                    .for_each(|mut import_or_export| children.append(&mut import_or_export));
                 if let Some(mut ty) = ty {
                     children.append(&mut ty);
                 }
@@ -283,8 +279,7 @@ fn module_field_memory(input: &mut Input) -> GreenResult {
         l_paren,
         trivias_prefixed(keyword("memory")),
         opt(trivias_prefixed(ident)),
-        opt(trivias_prefixed(import)), // postpone syntax error for using import with export or instr
-        opt(trivias_prefixed(export)),
+        repeat::<_, _, Vec<_>, _, _>(0.., trivias_prefixed(alt((import, export)))), // postpone syntax error for using import with export or instr
         dispatch! {peek(preceded(trivias, any));
             '(' => must(retry_once(data, [])),
             _ => must(retry_once(memory_type, [])),
@@ -293,19 +288,16 @@ fn module_field_memory(input: &mut Input) -> GreenResult {
     )
         .parse_next(input)
         .map(
-            |(l_paren, mut keyword, id, import, export, mem_type_or_data, r_paren)| {
+            |(l_paren, mut keyword, id, imports_or_exports, mem_type_or_data, r_paren)| {
                 let mut children = Vec::with_capacity(8);
                 children.push(l_paren);
                 children.append(&mut keyword);
                 if let Some(mut id) = id {
                     children.append(&mut id);
                 }
-                if let Some(mut import) = import {
-                    children.append(&mut import);
-                }
-                if let Some(mut export) = export {
-                    children.append(&mut export);
-                }
+                imports_or_exports
+                    .into_iter()
+                    .for_each(|mut import_or_export| children.append(&mut import_or_export));
                 if let Some(mut mem_type_or_data) = mem_type_or_data {
                     children.append(&mut mem_type_or_data);
                 }
@@ -344,8 +336,7 @@ fn module_field_table(input: &mut Input) -> GreenResult {
         l_paren,
         trivias_prefixed(keyword("table")),
         opt(trivias_prefixed(ident)),
-        opt(trivias_prefixed(import)), // postpone syntax error for using import with export or instr
-        opt(trivias_prefixed(export)),
+        repeat::<_, _, Vec<_>, _, _>(0.., trivias_prefixed(alt((import, export)))), // postpone syntax error for using import with export or instr
         must(alt((
             (trivias_prefixed(ref_type), must(retry_once(elem, []))),
             (retry(table_type, []), empty.value(None)),
@@ -354,19 +345,16 @@ fn module_field_table(input: &mut Input) -> GreenResult {
     )
         .parse_next(input)
         .map(
-            |(l_paren, mut keyword, id, import, export, ty_and_elem, r_paren)| {
+            |(l_paren, mut keyword, id, imports_or_exports, ty_and_elem, r_paren)| {
                 let mut children = Vec::with_capacity(7);
                 children.push(l_paren);
                 children.append(&mut keyword);
                 if let Some(mut id) = id {
                     children.append(&mut id);
                 }
-                if let Some(mut import) = import {
-                    children.append(&mut import);
-                }
-                if let Some(mut export) = export {
-                    children.append(&mut export);
-                }
+                imports_or_exports
+                    .into_iter()
+                    .for_each(|mut import_or_export| children.append(&mut import_or_export));
                 if let Some((mut ty, elem)) = ty_and_elem {
                     children.append(&mut ty);
                     if let Some(mut elem) = elem {
-- 
2.43.0


From 520da53fd6072ab3f03a9953cdb919635843f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:37 +0000
Subject: [PATCH 30/47] fix: don't treat the only index of table.init as table
 index

---
 crates/service/src/binder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 019a2a8..88e4161 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -354,10 +354,11 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                         else {
                             continue;
                         };
-                        let mut children = node.children();
-                        if let Some(symbol) = children.next().and_then(|node| {
+                        let mut refs = node.children().filter_map(|node| {
                             create_ref_symbol(db, node, region.clone(), SymbolItemKind::TableRef)
-                        }) {
+                        });
+                        // the only index is for element segment if table index is omitted
+                        if let Some((symbol, _)) = refs.next().zip(refs.next()) {
                             symbols.push(symbol);
                         }
                     }
-- 
2.43.0


From cb4de5a25ea1c28501bc63e1db8e2e6f46b83e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:37 +0000
Subject: [PATCH 31/47] fix: keep space before comments when splitting params,
 results and locals

---
 crates/service/src/refactorings/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/service/src/refactorings/mod.rs b/crates/service/src/refactorings/mod.rs
index 6a7aad4..fad2acc 100644
--- a/crates/service/src/refactorings/mod.rs
+++ b/crates/service/src/refactorings/mod.rs
@@ -10,7 +10,7 @@ fn push_element(text: &mut String, element: &SyntaxElement) {
     if element.kind() == SyntaxKind::WHITESPACE {
         return;
     }
-    if !text.ends_with(['(', '\n']) {
+    if element.kind() != SyntaxKind::KEYWORD && !text.ends_with('\n') {
         text.push(' ');
     }
     text.push_str(&element.to_string());
-- 
2.43.0


From dd4b58d1f05223ea392088c59732f8a9063e3c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:12 +0000
Subject: [PATCH 32/47] fix: unsigned integers and memory arguments must not
 run into other characters

---
 crates/parser/src/parser/instr.rs | 15 ++++++++++-----
 crates/parser/src/parser/token.rs |  6 ++++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index ae06598..610aa1d 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -2,8 +2,8 @@ use super::{
     module::type_use,
     must, node, retry, retry_once, tok,
     token::{
-        float, ident, int, keyword, l_paren, r_paren, string, trivias, trivias_prefixed,
-        unsigned_int_impl, word,
+        float, ident, int, is_id_char, keyword, l_paren, r_paren, string, trivias,
+        trivias_prefixed, unsigned_int_impl, word,
     },
     ty::{heap_type, result},
     GreenElement, GreenResult, Input,
@@ -11,9 +11,9 @@ use super::{
 use crate::error::SyntaxError;
 use wat_syntax::SyntaxKind::*;
 use winnow::{
-    combinator::{alt, dispatch, fail, opt, peek, preceded, repeat, repeat_till},
+    combinator::{alt, dispatch, fail, not, opt, peek, preceded, repeat, repeat_till},
     error::{StrContext, StrContextValue},
-    token::any,
+    token::{any, one_of},
     Parser,
 };
 
@@ -400,7 +400,12 @@ fn operand<'s>(allow_instr: bool) -> impl Parser<Input<'s>, GreenElement, Syntax
 }
 
 fn mem_arg(input: &mut Input) -> GreenResult {
-    (alt(("offset", "align")), '=', unsigned_int_impl)
+    (
+        alt(("offset", "align")),
+        '=',
+        unsigned_int_impl,
+        not(one_of(is_id_char)),
+    )
         .take()
         .parse_next(input)
         .map(|text| tok(MEM_ARG, text))
diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index 4261562..f6c51bc 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -3,7 +3,9 @@ use crate::error::SyntaxError;
 use wat_syntax::SyntaxKind::*;
 use winnow::{
     ascii::{hex_digit0, line_ending, multispace1, take_escaped, till_line_ending},
-    combinator::{alt, dispatch, empty, eof, fail, not, opt, peek, preceded, repeat, repeat_till},
+    combinator::{
+        alt, dispatch, empty, eof, fail, not, opt, peek, preceded, repeat, repeat_till, terminated,
+    },
     error::{ErrMode, FromRecoverableError, StrContext, StrContextValue},
     stream::{AsChar, Location, Recover, Stream},
     token::{any, none_of, one_of, take_till, take_until, take_while},
@@ -228,7 +230,7 @@ fn int_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
 }
 
 pub(super) fn unsigned_int(input: &mut Input) -> GreenResult {
-    unsigned_int_impl
+    terminated(unsigned_int_impl, not(one_of(is_id_char)))
         .parse_next(input)
         .map(|text| tok(UNSIGNED_INT, text))
 }
-- 
2.43.0


From 47682f2ff750b980f98d055ca836b9d829ff3fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:15 +0000
Subject: [PATCH 33/47] fix: report stray end, else and then, and blocks which
 are incomplete

---
 crates/parser/src/parser/instr.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index 610aa1d..180e8f5 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -12,7 +12,8 @@ use crate::error::SyntaxError;
 use wat_syntax::SyntaxKind::*;
 use winnow::{
     combinator::{alt, dispatch, fail, not, opt, peek, preceded, repeat, repeat_till},
-    error::{StrContext, StrContextValue},
+    error::{ErrMode, StrContext, StrContextValue},
+    stream::{Location, Recover, Stream},
     token::{any, one_of},
     Parser,
 };
@@ -373,9 +374,23 @@ fn plain_instr(input: &mut Input) -> GreenResult {
 }
 
 fn instr_name(input: &mut Input) -> GreenResult {
-    word.context(StrContext::Label("instruction name"))
-        .parse_next(input)
-        .map(|text| tok(INSTR_NAME, text))
+    let token_start = input.checkpoint();
+    let start = input.location();
+    let text = word
+        .verify(|word: &str| !matches!(word, "end" | "else" | "then"))
+        .context(StrContext::Label("instruction name"))
+        .parse_next(input)?;
+    if matches!(text, "block" | "loop" | "if") {
+        // incomplete block instruction
+        let err_start = input.checkpoint();
+        let error = SyntaxError {
+            start,
+            end: input.location(),
+            message: StrContext::Label("block instruction"),
+        };
+        input.record_err(&token_start, &err_start, ErrMode::Backtrack(error))?;
+    }
+    Ok(tok(INSTR_NAME, text))
 }
 
 fn operand<'s>(allow_instr: bool) -> impl Parser<Input<'s>, GreenElement, SyntaxError> {
-- 
2.43.0


From 2589954b38c2ab2d695a4094102e4003725c4e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:15 +0000
Subject: [PATCH 34/47] fix: report identifiers after folded blocks

---
 crates/parser/src/parser/instr.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index 180e8f5..e8f1ba3 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -89,10 +89,9 @@ fn block_block(input: &mut Input) -> GreenResult {
             opt(trivias_prefixed(block_type)),
             repeat::<_, _, Vec<_>, _, _>(0.., retry(instr, [])),
             r_paren,
-            opt(trivias_prefixed(ident)),
         )
             .map(
-                |(l_paren, mut keyword, label, block_type, instrs, r_paren, id)| {
+                |(l_paren, mut keyword, label, block_type, instrs, r_paren)| {
                     let mut children = Vec::with_capacity(6);
                     children.push(l_paren);
                     children.append(&mut keyword);
@@ -108,9 +107,6 @@ fn block_block(input: &mut Input) -> GreenResult {
                     if let Some(mut r_paren) = r_paren {
                         children.append(&mut r_paren);
                     }
-                    if let Some(mut id) = id {
-                        children.append(&mut id);
-                    }
                     node(BLOCK_BLOCK, children)
                 },
             ),
@@ -159,10 +155,9 @@ fn block_loop(input: &mut Input) -> GreenResult {
             opt(trivias_prefixed(block_type)),
             repeat::<_, _, Vec<_>, _, _>(0.., retry(instr, [])),
             r_paren,
-            opt(trivias_prefixed(ident)),
         )
             .map(
-                |(l_paren, mut keyword, label, block_type, instrs, r_paren, id)| {
+                |(l_paren, mut keyword, label, block_type, instrs, r_paren)| {
                     let mut children = Vec::with_capacity(6);
                     children.push(l_paren);
                     children.append(&mut keyword);
@@ -178,9 +173,6 @@ fn block_loop(input: &mut Input) -> GreenResult {
                     if let Some(mut r_paren) = r_paren {
                         children.append(&mut r_paren);
                     }
-                    if let Some(mut id) = id {
-                        children.append(&mut id);
-                    }
                     node(BLOCK_LOOP, children)
                 },
             ),
-- 
2.43.0


From 93f985d200a347ca881d09575d491259b4c98a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:28 +0000
Subject: [PATCH 35/47] fix: offer labels which are in scope only

---
 crates/service/src/binder.rs              | 32 +++++++++++------------
 crates/service/src/features/completion.rs | 22 +++++++---------
 2 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 88e4161..a415afd 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -99,22 +99,6 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
             })
     }
 
-    /// Get blocks whose label is visible for the given instruction, from the innermost one.
-    fn get_label_scopes(node: &SyntaxNode) -> impl Iterator<Item = SyntaxNode> {
-        node.ancestors()
-            .zip(node.ancestors().skip(1))
-            .filter(|(child, parent)| match parent.kind() {
-                SyntaxKind::BLOCK_BLOCK | SyntaxKind::BLOCK_LOOP => true,
-                // label of "if" isn't visible in its condition
-                SyntaxKind::BLOCK_IF => matches!(
-                    child.kind(),
-                    SyntaxKind::BLOCK_IF_THEN | SyntaxKind::BLOCK_IF_ELSE
-                ),
-                _ => false,
-            })
-            .map(|(_, parent)| parent)
-    }
-
     let root = SyntaxNode::new_root(db.root(uri));
     let mut module_field_id = 0;
     let mut symbols = Vec::with_capacity(2);
@@ -643,6 +627,22 @@ impl SymbolTable {
     }
 }
 
+/// Get blocks whose label is visible for the given instruction, from the innermost one.
+pub(crate) fn get_label_scopes(node: &SyntaxNode) -> impl Iterator<Item = SyntaxNode> {
+    node.ancestors()
+        .zip(node.ancestors().skip(1))
+        .filter(|(child, parent)| match parent.kind() {
+            SyntaxKind::BLOCK_BLOCK | SyntaxKind::BLOCK_LOOP => true,
+            // label of "if" isn't visible in its condition
+            SyntaxKind::BLOCK_IF => matches!(
+                child.kind(),
+                SyntaxKind::BLOCK_IF_THEN | SyntaxKind::BLOCK_IF_ELSE
+            ),
+            _ => false,
+        })
+        .map(|(_, parent)| parent)
+}
+
 #[derive(Clone, Debug, PartialEq, Eq, Hash)]
 pub struct SymbolItemKey {
     pub ptr: SyntaxNodePtr<WatLanguage>,
diff --git a/crates/service/src/features/completion.rs b/crates/service/src/features/completion.rs
index 3d58b9d..22972c8 100644
--- a/crates/service/src/features/completion.rs
+++ b/crates/service/src/features/completion.rs
@@ -1,5 +1,5 @@
 use crate::{
-    binder::{SymbolItemKind, SymbolTable, SymbolTablesCtx},
+    binder::{get_label_scopes, SymbolItemKind, SymbolTable, SymbolTablesCtx},
     data_set,
     files::FilesCtx,
     helpers,
@@ -584,20 +584,18 @@ fn get_cmp_list(
                     );
                 }
                 CmpCtx::Block => {
+                    let Some(parent) = token.parent() else {
+                        return items;
+                    };
                     let has_dollar = token.text().starts_with('$');
                     items.extend(
-                        symbol_table
-                            .symbols
-                            .iter()
-                            .filter(|symbol| {
-                                symbol.kind == SymbolItemKind::BlockDef
-                                    && symbol
-                                        .key
-                                        .ptr
-                                        .text_range()
-                                        .contains_range(token.text_range())
+                        get_label_scopes(&parent)
+                            .filter_map(|block| {
+                                let key = block.into();
+                                symbol_table.symbols.iter().find(|symbol| {
+                                    symbol.kind == SymbolItemKind::BlockDef && symbol.key == key
+                                })
                             })
-                            .rev()
                             .enumerate()
                             .filter_map(|(num, symbol)| {
                                 let idx = Idx {
-- 
2.43.0


From a1bdca26d0cdfe19fa6875eb46f0b1894a1031a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:35 +0000
Subject: [PATCH 36/47] fix: offer indexes in element lists, memory uses, table
 uses and indirect calls

---
 crates/service/src/features/completion.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/service/src/features/completion.rs b/crates/service/src/features/completion.rs
index 22972c8..a4c8d11 100644
--- a/crates/service/src/features/completion.rs
+++ b/crates/service/src/features/completion.rs
@@ -170,13 +170,16 @@ fn get_cmp_ctx(token: &SyntaxToken) -> Option<SmallVec<[CmpCtx; 4]>> {
         SyntaxKind::INDEX => {
             let grand = parent.parent()?;
             match grand.kind() {
-                SyntaxKind::MODULE_FIELD_START | SyntaxKind::EXPORT_DESC_FUNC => {
+                SyntaxKind::MODULE_FIELD_START
+                | SyntaxKind::EXPORT_DESC_FUNC
+                | SyntaxKind::ELEM
+                | SyntaxKind::ELEM_LIST => {
                     ctx.push(CmpCtx::Func);
                 }
                 SyntaxKind::TYPE_USE => ctx.push(CmpCtx::FuncType),
                 SyntaxKind::EXPORT_DESC_GLOBAL => ctx.push(CmpCtx::Global),
-                SyntaxKind::EXPORT_DESC_MEMORY => ctx.push(CmpCtx::Memory),
-                SyntaxKind::EXPORT_DESC_TABLE => ctx.push(CmpCtx::Table),
+                SyntaxKind::EXPORT_DESC_MEMORY | SyntaxKind::MEM_USE => ctx.push(CmpCtx::Memory),
+                SyntaxKind::EXPORT_DESC_TABLE | SyntaxKind::TABLE_USE => ctx.push(CmpCtx::Table),
                 _ => {}
             }
         }
@@ -288,6 +291,8 @@ fn get_cmp_ctx(token: &SyntaxToken) -> Option<SmallVec<[CmpCtx; 4]>> {
             if find_leading_l_paren(token).is_some() {
                 ctx.push(CmpCtx::KeywordItem);
                 ctx.push(CmpCtx::Instr);
+            } else if support::token(&parent, SyntaxKind::REF_TYPE).is_none() {
+                ctx.push(CmpCtx::Func);
             }
         }
         SyntaxKind::TABLE_USE => ctx.push(CmpCtx::Table),
@@ -331,6 +336,7 @@ fn add_cmp_ctx_for_operands(instr_name: &str, node: &SyntaxNode, ctx: &mut Small
         }
         None => match instr_name {
             "call" | "return_call" => ctx.push(CmpCtx::Func),
+            "call_indirect" | "return_call_indirect" => ctx.push(CmpCtx::Table),
             "br" | "br_if" | "br_table" => ctx.push(CmpCtx::Block),
             _ => {}
         },
-- 
2.43.0


From 5f0ca00129b145fe3c8af211ae6a6071c6d8e8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 37/47] fix: complete operands of unfolded instructions after
 typing $

---
 crates/service/src/features/completion.rs | 34 ++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/features/completion.rs b/crates/service/src/features/completion.rs
index a4c8d11..84c54fd 100644
--- a/crates/service/src/features/completion.rs
+++ b/crates/service/src/features/completion.rs
@@ -43,6 +43,10 @@ fn find_token(
 fn get_cmp_ctx(token: &SyntaxToken) -> Option<SmallVec<[CmpCtx; 4]>> {
     let mut ctx = SmallVec::with_capacity(2);
     let parent = token.parent()?;
+    if let Some(instr_name) = find_flat_instr_name(token) {
+        add_cmp_ctx_for_operands(instr_name.text(), &parent, &mut ctx);
+        return if ctx.is_empty() { None } else { Some(ctx) };
+    }
     match parent.kind() {
         SyntaxKind::MODULE_FIELD_FUNC => {
             let prev_node = token
@@ -314,6 +318,26 @@ fn get_cmp_ctx(token: &SyntaxToken) -> Option<SmallVec<[CmpCtx; 4]>> {
         Some(ctx)
     }
 }
+/// Operand that is just begun by typing "$" isn't parsed as a part of the unfolded instruction before it.
+fn find_flat_instr_name(token: &SyntaxToken) -> Option<SyntaxToken> {
+    if token.kind() != SyntaxKind::ERROR || token.text() != "$" {
+        return None;
+    }
+    let instr = token
+        .siblings_with_tokens(Direction::Prev)
+        .skip(1)
+        .find(|element| {
+            !matches!(
+                element.kind(),
+                SyntaxKind::WHITESPACE | SyntaxKind::LINE_COMMENT | SyntaxKind::BLOCK_COMMENT
+            )
+        })
+        .and_then(SyntaxElement::into_node)
+        .filter(|node| node.kind() == SyntaxKind::PLAIN_INSTR)?;
+    instr
+        .first_token()
+        .filter(|token| token.kind() == SyntaxKind::INSTR_NAME)
+}
 fn add_cmp_ctx_for_operands(instr_name: &str, node: &SyntaxNode, ctx: &mut SmallVec<[CmpCtx; 4]>) {
     match instr_name.split_once('.') {
         Some(("local", _)) => ctx.push(CmpCtx::Local),
@@ -594,8 +618,16 @@ fn get_cmp_list(
                         return items;
                     };
                     let has_dollar = token.text().starts_with('$');
+                    // operand that is just begun isn't inside of its instruction
+                    let block = matches!(
+                        parent.kind(),
+                        SyntaxKind::BLOCK_BLOCK | SyntaxKind::BLOCK_LOOP
+                    )
+                    .then(|| parent.clone());
                     items.extend(
-                        get_label_scopes(&parent)
+                        block
+                            .into_iter()
+                            .chain(get_label_scopes(&parent))
                             .filter_map(|block| {
                                 let key = block.into();
                                 symbol_table.symbols.iter().find(|symbol| {
-- 
2.43.0


From bf592ff27909432ec924b0e9204f6ea7e1e48716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 38/47] fix: answer requests which are unknown or have invalid
 parameters

---
 crates/server/src/server.rs | 126 +++++++++++++++++++++++++++++-------
 1 file changed, 103 insertions(+), 23 deletions(-)

diff --git a/crates/server/src/server.rs b/crates/server/src/server.rs
index 0965923..ed940b6 100644
--- a/crates/server/src/server.rs
+++ b/crates/server/src/server.rs
@@ -1,5 +1,6 @@
 use lsp_server::{
-    Connection, ExtractError, Message, Notification, Request, RequestId, Response, ResponseError,
+    Connection, ErrorCode, ExtractError, Message, Notification, Request, RequestId, Response,
+    ResponseError,
 };
 use lsp_types::{
     notification::{
@@ -48,6 +49,7 @@ impl Server {
                     if conn.handle_shutdown(&req)? {
                         return Ok(());
                     }
+                    let req_id = req.id.clone();
                     match cast_req::<CallHierarchyPrepare>(req) {
                         Ok((id, params)) => {
                             conn.sender.send(Message::Response(Response {
@@ -60,7 +62,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                     match cast_req::<CallHierarchyIncomingCalls>(req) {
                         Ok((id, params)) => {
@@ -74,7 +79,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                     match cast_req::<CallHierarchyOutgoingCalls>(req) {
                         Ok((id, params)) => {
@@ -88,7 +96,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                     match cast_req::<CodeActionRequest>(req) {
                         Ok((id, params)) => {
@@ -102,7 +113,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                     match cast_req::<Completion>(req) {
                         Ok((id, params)) => {
@@ -116,7 +130,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                     match cast_req::<DocumentDiagnosticRequest>(req) {
                         Ok((id, params)) => {
@@ -130,7 +147,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                     match cast_req::<FoldingRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -144,7 +164,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                     match cast_req::<Formatting>(req) {
                         Ok((id, params)) => {
@@ -158,7 +181,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                     match cast_req::<RangeFormatting>(req) {
                         Ok((id, params)) => {
@@ -172,7 +198,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoDefinition>(req) {
                         Ok((id, params)) => {
@@ -186,7 +215,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoTypeDefinition>(req) {
                         Ok((id, params)) => {
@@ -200,7 +232,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoDeclaration>(req) {
                         Ok((id, params)) => {
@@ -214,7 +249,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                     match cast_req::<HoverRequest>(req) {
                         Ok((id, params)) => {
@@ -226,7 +264,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                     match cast_req::<InlayHintRequest>(req) {
                         Ok((id, params)) => {
@@ -240,7 +281,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                     match cast_req::<References>(req) {
                         Ok((id, params)) => {
@@ -254,7 +298,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                     match cast_req::<PrepareRenameRequest>(req) {
                         Ok((id, params)) => {
@@ -268,7 +315,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                     match cast_req::<Rename>(req) {
                         Ok((id, params)) => {
@@ -291,7 +341,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                     match cast_req::<SelectionRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -305,7 +358,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                     match cast_req::<SemanticTokensFullRequest>(req) {
                         Ok((id, params)) => {
@@ -319,7 +375,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                     match cast_req::<SemanticTokensRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -333,7 +392,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                     match cast_req::<DocumentSymbolRequest>(req) {
                         Ok((id, params)) => {
@@ -346,8 +408,18 @@ impl Server {
                             }))?;
                             continue;
                         }
-                        Err(ExtractError::MethodMismatch(..)) => continue,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::MethodMismatch(r)) => {
+                            conn.sender.send(Message::Response(Response::new_err(
+                                req_id,
+                                ErrorCode::MethodNotFound as i32,
+                                format!("unknown method: {}", r.method),
+                            )))?;
+                            continue;
+                        }
+                        Err(error @ ExtractError::JsonError { .. }) => {
+                            conn.sender.send(invalid_params(req_id, error))?;
+                            continue;
+                        }
                     }
                 }
                 Message::Notification(mut notification) => {
@@ -435,6 +507,14 @@ impl Server {
     }
 }
 
+fn invalid_params(id: RequestId, error: ExtractError<Request>) -> Message {
+    Message::Response(Response::new_err(
+        id,
+        ErrorCode::InvalidParams as i32,
+        error.to_string(),
+    ))
+}
+
 fn cast_req<R>(req: Request) -> Result<(RequestId, R::Params), ExtractError<Request>>
 where
     R: lsp_types::request::Request,
-- 
2.43.0


From 65478cf2451e9f7bcac8d3775e3f69e84f21165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 39/47] fix: use the last of several changes of the whole
 document

---
 crates/server/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/server/src/server.rs b/crates/server/src/server.rs
index ed940b6..bc72415 100644
--- a/crates/server/src/server.rs
+++ b/crates/server/src/server.rs
@@ -472,7 +472,7 @@ impl Server {
         params: DidChangeTextDocumentParams,
         conn: &Connection,
     ) -> anyhow::Result<()> {
-        if let Some(change) = params.content_changes.first() {
+        if let Some(change) = params.content_changes.last() {
             self.service
                 .commit(params.text_document.uri.clone(), change.text.clone());
             if !self.support_pull_diagnostics {
-- 
2.43.0


From 6bef897d584b667a230648c8497cff32253b4646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 40/47] fix: indent strings of data segments

---
 crates/formatter/src/printer/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index c02d5be..dda7468 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -589,7 +589,7 @@ impl DocGen for ModuleFieldData {
         }
         self.string_tokens().for_each(|string| {
             if trivias.is_empty() {
-                docs.push(Doc::soft_line());
+                docs.push(Doc::soft_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
             }
-- 
2.43.0


From 73a0c9418f36998a1216e8cdaba2ee4cfaf73ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:48 +0000
Subject: [PATCH 41/47] fix: don't panic if tab size is 0 when formatting

---
 crates/service/src/features/formatting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/service/src/features/formatting.rs b/crates/service/src/features/formatting.rs
index e6f24dc..6ac2eb5 100644
--- a/crates/service/src/features/formatting.rs
+++ b/crates/service/src/features/formatting.rs
@@ -43,7 +43,7 @@ impl LanguageService {
 fn build_options(options: &FormattingOptions) -> FormatOptions {
     FormatOptions {
         layout: LayoutOptions {
-            indent_width: options.tab_size as usize,
+            indent_width: options.tab_size.max(1) as usize,
             use_tabs: !options.insert_spaces,
             ..Default::default()
         },
-- 
2.43.0


From 5e6e415db8a2021d7ae6a2e1bae46033492099d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:39 +0000
Subject: [PATCH 42/47] fix: offer code actions when parent kinds are requested

---
 crates/service/src/features/code_action.rs | 25 ++++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/crates/service/src/features/code_action.rs b/crates/service/src/features/code_action.rs
index 8dab998..53f2a14 100644
--- a/crates/service/src/features/code_action.rs
+++ b/crates/service/src/features/code_action.rs
@@ -8,15 +8,9 @@ impl LanguageService {
         let uri = self.uri(params.text_document.uri.clone());
         let line_index = self.line_index(uri);
 
-        let mut quickfix = params.context.only.is_none();
-        let mut rewrite = params.context.only.is_none();
-        params.context.only.into_iter().flatten().for_each(|kind| {
-            if kind == CodeActionKind::QUICKFIX {
-                quickfix = true;
-            } else if kind == CodeActionKind::REFACTOR_REWRITE {
-                rewrite = true;
-            }
-        });
+        let only = params.context.only;
+        let quickfix = is_requested(&only, &CodeActionKind::QUICKFIX);
+        let rewrite = is_requested(&only, &CodeActionKind::REFACTOR_REWRITE);
 
         let mut actions = vec![];
         let range = helpers::lsp_range_to_rowan_range(&line_index, params.range)?;
@@ -77,3 +71,16 @@ impl LanguageService {
         }
     }
 }
+
+/// Kinds are hierarchical: "refactor" includes "refactor.rewrite", and the empty kind includes all kinds.
+fn is_requested(only: &Option<Vec<CodeActionKind>>, kind: &CodeActionKind) -> bool {
+    only.as_ref().map_or(true, |only| {
+        only.iter().any(|requested| {
+            kind.as_str()
+                .strip_prefix(requested.as_str())
+                .is_some_and(|rest| {
+                    rest.is_empty() || rest.starts_with('.') || requested.as_str().is_empty()
+                })
+        })
+    })
+}
-- 
2.43.0


From c2deb86bd2d763cdb79618a737f6a6e4a713e1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:22 +0000
Subject: [PATCH 43/47] fix: show the opcode of select without types

---
 crates/service/src/data_set/instr_meta.rs | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/crates/service/src/data_set/instr_meta.rs b/crates/service/src/data_set/instr_meta.rs
index 6ab6cd2..a363682 100644
--- a/crates/service/src/data_set/instr_meta.rs
+++ b/crates/service/src/data_set/instr_meta.rs
@@ -37,19 +37,6 @@ pub(crate) static INSTR_METAS: LazyLock<FxHashMap<&'static str, InstrMeta>> = La
             results: vec![OperandType::Generic],
         },
     );
-    map.insert(
-        "select",
-        InstrMeta {
-            bin_op: "0x1C",
-            operands_count: 0,
-            params: vec![
-                OperandType::Generic,
-                OperandType::Generic,
-                OperandType::Val(ValType::I32),
-            ],
-            results: vec![OperandType::Generic],
-        },
-    );
     map.insert(
         "local.get",
         InstrMeta {
-- 
2.43.0


From ef737addbf81daa66ddc81a47b4c5654d78cc0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 44/47] fix: rename labels repeated after else and end

---
 crates/service/src/features/rename.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/service/src/features/rename.rs b/crates/service/src/features/rename.rs
index 276bf08..dc6bd73 100644
--- a/crates/service/src/features/rename.rs
+++ b/crates/service/src/features/rename.rs
@@ -12,7 +12,7 @@ use lsp_types::{
 use rowan::ast::support;
 use std::collections::HashMap;
 use wat_parser::is_id_char;
-use wat_syntax::{SyntaxKind, SyntaxNode, SyntaxToken};
+use wat_syntax::{ast::BlockIfElse, SyntaxKind, SyntaxNode, SyntaxToken};
 
 const ERR_INVALID_IDENTIFIER: &str = "not a valid identifier";
 const ERR_CANT_BE_RENAMED: &str = "This can't be renamed.";
@@ -66,7 +66,12 @@ impl LanguageService {
         let symbol_table = self.symbol_table(uri);
 
         let old_name = self.ident(ident_token.text().to_string());
-        let symbol_key = ident_token.parent()?.into();
+        let mut node = ident_token.parent()?;
+        // label after `else` belongs to the whole `if`
+        if node.kind() == SyntaxKind::BLOCK_IF_ELSE {
+            node = node.parent()?;
+        }
+        let symbol_key = node.into();
         let symbol = symbol_table
             .symbols
             .iter()
@@ -112,7 +117,19 @@ impl LanguageService {
                 }
                 SymbolItemKind::Module => false,
             })
-            .filter_map(|sym| support::token(&sym.key.ptr.to_node(&root), SyntaxKind::IDENT))
+            .flat_map(|sym| {
+                let node = sym.key.ptr.to_node(&root);
+                // label can be repeated after `else` and `end`
+                let else_label = support::child::<BlockIfElse>(&node)
+                    .and_then(|else_block| else_block.ident_token());
+                node.children_with_tokens()
+                    .filter_map(|element| element.into_token())
+                    .chain(else_label)
+                    .filter(|token| {
+                        token.kind() == SyntaxKind::IDENT && token.text() == ident_token.text()
+                    })
+                    .collect::<Vec<_>>()
+            })
             .map(|token| TextEdit {
                 range: helpers::rowan_range_to_lsp_range(&line_index, token.text_range()),
                 new_text: params.new_name.clone(),
-- 
2.43.0


From d03c9aa25c7b0646101a0a682e757803570937b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:19 +0000
Subject: [PATCH 45/47] fix: report signed indexes

---
 .../service/src/checker/literal_operands.rs   | 43 ++++++++++---------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/crates/service/src/checker/literal_operands.rs b/crates/service/src/checker/literal_operands.rs
index 72f80ae..ad1bf9f 100644
--- a/crates/service/src/checker/literal_operands.rs
+++ b/crates/service/src/checker/literal_operands.rs
@@ -32,6 +32,24 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         };
     }
 
+    macro_rules! check_index {
+        () => {
+            // index can't be signed
+            if operands
+                .peek()
+                .and_then(|operand| operand.int())
+                .is_some_and(|int| int.text().starts_with(['+', '-']))
+            {
+                check_operand!(SyntaxKind::IDENT, "expected identifier or unsigned integer");
+            } else {
+                check_operand!(
+                    SyntaxKind::IDENT | SyntaxKind::INT,
+                    "expected identifier or unsigned integer"
+                );
+            }
+        };
+    }
+
     match instr_name.text() {
         // index of table can be omitted
         "table.get" | "table.set" | "table.grow" | "table.size" | "table.fill" | "table.copy"
@@ -41,10 +59,7 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         "call" | "local.get" | "local.set" | "local.tee" | "global.get" | "global.set"
         | "table.get" | "table.set" | "ref.func" | "memory.init" | "data.drop" | "elem.drop"
         | "table.grow" | "table.size" | "table.fill" | "br" | "br_if" => {
-            check_operand!(
-                SyntaxKind::IDENT | SyntaxKind::INT,
-                "expected identifier or unsigned integer"
-            );
+            check_index!();
         }
         "i32.const" | "i64.const" | "v128.const" => {
             check_operand!(SyntaxKind::INT, "expected integer");
@@ -56,18 +71,12 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
             );
         }
         "table.init" | "table.copy" => {
-            check_operand!(
-                SyntaxKind::IDENT | SyntaxKind::INT,
-                "expected identifier or unsigned integer"
-            );
+            check_index!();
             if !operands
                 .peek()
                 .is_some_and(|operand| operand.instr().is_some())
             {
-                check_operand!(
-                    SyntaxKind::IDENT | SyntaxKind::INT,
-                    "expected identifier or unsigned integer"
-                );
+                check_index!();
             }
         }
         "i32.load" | "i64.load" | "f32.load" | "f64.load" | "i32.load8_s" | "i32.load8_u"
@@ -101,10 +110,7 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         | "f32x4.replace_lane"
         | "f64x2.extract_lane"
         | "f64x2.replace_lane" => {
-            check_operand!(
-                SyntaxKind::IDENT | SyntaxKind::INT,
-                "expected identifier or unsigned integer"
-            );
+            check_index!();
         }
         "v128.load8_lane" | "v128.load16_lane" | "v128.load32_lane" | "v128.load64_lane"
         | "v128.store8_lane" | "v128.store16_lane" | "v128.store32_lane" | "v128.store64_lane" => {
@@ -116,10 +122,7 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
                 check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
                 operands.next_if(|operand| operand.mem_arg().is_some());
             }
-            check_operand!(
-                SyntaxKind::IDENT | SyntaxKind::INT,
-                "expected identifier or unsigned integer"
-            );
+            check_index!();
         }
         _ => {}
     }
-- 
2.43.0


From 22e50a7b196cd50f2a7e70a661542e641252e54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:20 +0000
Subject: [PATCH 46/47] fix: check indexes of br_table and return_call, and
 memory arguments of v128.load32_zero and v128.load64_zero

---
 crates/service/src/checker/literal_operands.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/service/src/checker/literal_operands.rs b/crates/service/src/checker/literal_operands.rs
index ad1bf9f..e4ff05a 100644
--- a/crates/service/src/checker/literal_operands.rs
+++ b/crates/service/src/checker/literal_operands.rs
@@ -56,11 +56,19 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
             if operands
                 .peek()
                 .is_some_and(|operand| operand.instr().is_some()) => {}
-        "call" | "local.get" | "local.set" | "local.tee" | "global.get" | "global.set"
-        | "table.get" | "table.set" | "ref.func" | "memory.init" | "data.drop" | "elem.drop"
-        | "table.grow" | "table.size" | "table.fill" | "br" | "br_if" => {
+        "call" | "return_call" | "local.get" | "local.set" | "local.tee" | "global.get"
+        | "global.set" | "table.get" | "table.set" | "ref.func" | "memory.init" | "data.drop"
+        | "elem.drop" | "table.grow" | "table.size" | "table.fill" | "br" | "br_if" => {
             check_index!();
         }
+        "br_table" => {
+            while operands
+                .peek()
+                .is_some_and(|operand| operand.instr().is_none())
+            {
+                check_index!();
+            }
+        }
         "i32.const" | "i64.const" | "v128.const" => {
             check_operand!(SyntaxKind::INT, "expected integer");
         }
@@ -85,8 +93,8 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         | "f32.store" | "f64.store" | "i32.store8" | "i32.store16" | "i64.store8"
         | "i64.store16" | "i64.store32" | "v128.load" | "v128.load8x8_s" | "v128.load8x8_u"
         | "v128.load16x4_s" | "v128.load16x4_u" | "v128.load32x2_s" | "v128.load32x2_u"
-        | "v128.load8_splat" | "v128.load16_splat" | "v128.load32_splat" | "v128.load64_splat"
-        | "v128.store" => {
+        | "v128.load32_zero" | "v128.load64_zero" | "v128.load8_splat" | "v128.load16_splat"
+        | "v128.load32_splat" | "v128.load64_splat" | "v128.store" => {
             // memory arguments can be omitted
             if operands
                 .peek()
-- 
2.43.0


From 9322f430cb1e2ec1077b054e2270959e94a974cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:33 +0000
Subject: [PATCH 47/47] fix: fix memory arguments with hexadecimal or grouped
 numbers

---
 .../service/src/refactorings/fix_invalid_mem_arg.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/service/src/refactorings/fix_invalid_mem_arg.rs b/crates/service/src/refactorings/fix_invalid_mem_arg.rs
index e0caa15..27444d3 100644
--- a/crates/service/src/refactorings/fix_invalid_mem_arg.rs
+++ b/crates/service/src/refactorings/fix_invalid_mem_arg.rs
@@ -36,10 +36,7 @@ pub fn act(
                         .and_then(SyntaxElement::into_token)
                         .filter(|token| {
                             token.kind() == SyntaxKind::ERROR
-                                && token
-                                    .text()
-                                    .strip_prefix('=')
-                                    .is_some_and(|rest| rest.chars().all(|c| c.is_ascii_digit()))
+                                && token.text().strip_prefix('=').is_some_and(is_uint_or_empty)
                         })
                         .zip(range)
                     {
@@ -105,3 +102,11 @@ fn check_after_eq(children: &mut SyntaxElementChildren<WatLanguage>) -> Option<T
         .and_then(|operand| operand.int())
         .and(range)
 }
+
+fn is_uint_or_empty(text: &str) -> bool {
+    text.is_empty()
+        || text.starts_with(|c: char| c.is_ascii_digit())
+            && text
+                .chars()
+                .all(|c| c.is_ascii_hexdigit() || matches!(c, 'x' | '_'))
+}
-- 
2.43.0

