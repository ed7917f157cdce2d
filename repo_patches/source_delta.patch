From ccb43dd2d8ddad00263e8ef9795701aa05685fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 01/29] fix: hook ? on the left-hand side of an assignment

---
 hooq-macros/src/impls/walker/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index 0994516..e5c3109 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -492,6 +492,7 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
                 new_context: context,
             } = handle_inert_attrs(&mut expr_assign.attrs, context)?;
 
+            walk_expr(&mut expr_assign.left, &context)?;
             walk_expr(&mut expr_assign.right, &context)
         }
         Expr::Async(expr_async) => {
-- 
2.43.0


From e57b3555bc00b793a4d880c3b5083d4f053006de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 02/29] fix: do not hook a trailing return without semicolon
 twice

---
 hooq-macros/src/impls/walker/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index e5c3109..81285da 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -79,6 +79,12 @@ fn handle_tail_expr(
         return Ok(());
     }
 
+    // セミコロンのない `return` は walk_expr で return としてフック済みなので、
+    // 末尾式として二重にフックしない
+    if matches!(expr, Expr::Return(_)) {
+        return Ok(());
+    }
+
     let TargetCallCheckBools {
         is_target_call,
         is_not_target_call,
-- 
2.43.0


From f532355258c7b03f338c6fe92bedc20460bcab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 03/29] fix: parenthesize a hooked expression that binds looser
 than a method call

---
 hooq-macros/src/impls/method/render/mod.rs | 30 ++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 5a9be92..810125a 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -18,6 +18,26 @@ fn get_file_name(q_span: Span) -> String {
     file.to_string()
 }
 
+// メソッド呼び出しよりも結合が弱く、そのまま `.method()` を続けると
+// 式の一部(例: `*r` の `r`)にしかフックがかからない式かどうか
+fn is_looser_than_method_call(expr: &Expr) -> bool {
+    matches!(
+        expr,
+        Expr::Assign(_)
+            | Expr::Binary(_)
+            | Expr::Break(_)
+            | Expr::Cast(_)
+            | Expr::Closure(_)
+            | Expr::Let(_)
+            | Expr::Range(_)
+            | Expr::RawAddr(_)
+            | Expr::Reference(_)
+            | Expr::Return(_)
+            | Expr::Unary(_)
+            | Expr::Yield(_)
+    )
+}
+
 impl HookInfo<'_> {
     pub fn render_expr_with_method(
         &self,
@@ -46,8 +66,14 @@ impl HookInfo<'_> {
                 let method = spanned(method, q_span);
 
                 (
-                    parse_quote! {
-                        #expr #dot #method
+                    if is_looser_than_method_call(expr) {
+                        parse_quote! {
+                            (#expr) #dot #method
+                        }
+                    } else {
+                        parse_quote! {
+                            #expr #dot #method
+                        }
                     },
                     exc,
                 )
-- 
2.43.0


From 35a1f9fef7d600f3998827b4c79499c474ad2db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 04/29] fix: keep skip_all in force under a nested skip

---
 hooq-macros/src/impls/inert_attr/context.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hooq-macros/src/impls/inert_attr/context.rs b/hooq-macros/src/impls/inert_attr/context.rs
index e915345..659d3d9 100644
--- a/hooq-macros/src/impls/inert_attr/context.rs
+++ b/hooq-macros/src/impls/inert_attr/context.rs
@@ -222,10 +222,14 @@ impl HookContext {
     }
 
     pub fn updated_by_inert_attr(parent_context: &HookContext, inert_attr: InertAttribute) -> Self {
-        let skip_status = LocalContextField::from_parent(
-            inert_attr.get_skip_status().map(Option::Some),
-            &parent_context.local_context.skip_status,
-        );
+        // skip_all の内側では、skip による上書きで skip_all が解除されないようにする
+        let skip_status = match &**parent_context.local_context.skip_status {
+            Some(SkipStatus::SkipAll) => Rc::clone(&parent_context.local_context.skip_status),
+            _ => LocalContextField::from_parent(
+                inert_attr.get_skip_status().map(Option::Some),
+                &parent_context.local_context.skip_status,
+            ),
+        };
         let InertAttribute {
             method,
             hook_targets,
-- 
2.43.0


From f863157fdbc5189120276667041624fcf21b7efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 05/29] fix: keep inner attributes of items inside macro calls

---
 hooq-macros/src/impls/walker/walk_macro.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/hooq-macros/src/impls/walker/walk_macro.rs b/hooq-macros/src/impls/walker/walk_macro.rs
index e7926c1..1b76c63 100644
--- a/hooq-macros/src/impls/walker/walk_macro.rs
+++ b/hooq-macros/src/impls/walker/walk_macro.rs
@@ -46,14 +46,13 @@ fn handle_token_stream(
         .into_iter()
         .map(|(eval, punct)| {
             let eval_hooked = match eval {
-                Evaluable::File(file) => file
-                    .items
-                    .into_iter()
-                    .map(|mut item| {
-                        walk_item(&mut item, context)?;
-                        Ok(item.into_token_stream())
-                    })
-                    .collect::<syn::Result<_>>()?,
+                Evaluable::File(mut file) => {
+                    for item in file.items.iter_mut() {
+                        walk_item(item, context)?;
+                    }
+                    // `#![...]` を失わないようにファイル全体をトークンに戻す
+                    file.into_token_stream()
+                }
                 Evaluable::Expr(mut expr) => {
                     walk_expr(&mut expr, context)?;
                     expr.into_token_stream()
-- 
2.43.0


From 5bff0059d63cead264295eda962d521101c69f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 06/29] fix: count $count within each function as documented

---
 hooq-macros/src/impls/inert_attr/context.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hooq-macros/src/impls/inert_attr/context.rs b/hooq-macros/src/impls/inert_attr/context.rs
index 659d3d9..0cb6745 100644
--- a/hooq-macros/src/impls/inert_attr/context.rs
+++ b/hooq-macros/src/impls/inert_attr/context.rs
@@ -318,6 +318,11 @@ impl HookContext {
     }
 
     pub fn update_fn_info(&mut self, function_info: FunctionInfo) {
+        // $count は関数ごとに数える (クロージャは外側の関数の通し番号とする)
+        if matches!(function_info, FunctionInfo::Function(_)) {
+            self.counter = Rc::new(RefCell::new(Counter::new()));
+        }
+
         self.local_context.fn_info =
             LocalContextField::from_parent(Some(Some(function_info)), &self.local_context.fn_info);
     }
-- 
2.43.0


From 032682b21b028c65f7dbec5cf0597900e9424138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 07/29] fix: keep the layout after a multi-line string literal
 in pretty_stringify

---
 hooq-macros/src/impls/utils/source_excerpt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/utils/source_excerpt.rs b/hooq-macros/src/impls/utils/source_excerpt.rs
index 6393552..d04d6ec 100644
--- a/hooq-macros/src/impls/utils/source_excerpt.rs
+++ b/hooq-macros/src/impls/utils/source_excerpt.rs
@@ -336,7 +336,8 @@ fn into_pretty_str_inner(
 
         res.push_str(tt_str);
 
-        *current_line = Some(tt_line);
+        // 複数行にわたる文字列リテラル自身が出力した改行も行数に含める
+        *current_line = Some(tt_line + tt_str.matches('\n').count());
         *current_column = Some(tt_end_column);
     }
 
-- 
2.43.0


From 8cf85b39642839443e5aee9a0655b1b3f822192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 08/29] fix: parenthesize $expr when it binds looser than a
 method call

---
 hooq-macros/src/impls/method/render/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 810125a..954dd85 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -3,7 +3,7 @@ use std::str::FromStr;
 
 use meta_vars::{META_VARS_LIST, MetaVars};
 use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
-use quote::ToTokens;
+use quote::{ToTokens, quote};
 use syn::{Expr, Token, parse_quote};
 
 use crate::impls::inert_attr::context::{HookInfo, LocalContextField};
@@ -272,7 +272,11 @@ impl HookInfo<'_> {
                     #file
                 })
             }
-            Ok(MetaVars::Expr) => Ok(expr.to_token_stream()),
+            Ok(MetaVars::Expr) => Ok(if is_looser_than_method_call(expr) {
+                quote! { (#expr) }
+            } else {
+                expr.to_token_stream()
+            }),
             Ok(MetaVars::Source) => {
                 let source_ts = self.source_tokenstream.clone();
 
-- 
2.43.0


From 017dba0a37172e4abf121bb4a1b736fa717514fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 09/29] fix: let flavors without trait_uses inherit it like
 every other field

---
 hooq-macros/src/impls/flavor/toml_load/apply.rs | 13 +++++++------
 hooq-macros/src/impls/flavor/toml_load/mod.rs   |  3 +--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/hooq-macros/src/impls/flavor/toml_load/apply.rs b/hooq-macros/src/impls/flavor/toml_load/apply.rs
index 9e44bc2..dd11fbe 100644
--- a/hooq-macros/src/impls/flavor/toml_load/apply.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/apply.rs
@@ -79,12 +79,13 @@ fn update_flavor_inner(
 
         let mut ignore_tail_expr_idents_setting = None;
 
-        let trait_uses = trait_uses
-            .into_iter()
-            .map(|path| syn::parse_str::<Path>(&path))
-            .collect::<syn::Result<Vec<_>>>()
-            .map_err(|e| format!("failed to parse trait_uses: {e}"))?;
-        flavor.trait_uses = trait_uses;
+        if let Some(trait_uses) = trait_uses {
+            flavor.trait_uses = trait_uses
+                .into_iter()
+                .map(|path| syn::parse_str::<Path>(&path))
+                .collect::<syn::Result<Vec<_>>>()
+                .map_err(|e| format!("failed to parse trait_uses: {e}"))?;
+        }
 
         if let Some(method) = method {
             let method_stream = syn::parse_str::<TokenStream>(&method)
diff --git a/hooq-macros/src/impls/flavor/toml_load/mod.rs b/hooq-macros/src/impls/flavor/toml_load/mod.rs
index f172b7a..3cc0530 100644
--- a/hooq-macros/src/impls/flavor/toml_load/mod.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/mod.rs
@@ -12,8 +12,7 @@ pub struct HooqToml {
 
 #[derive(Deserialize, Debug, Clone)]
 pub struct FlavorTable {
-    #[serde(default)]
-    pub trait_uses: Vec<String>,
+    pub trait_uses: Option<Vec<String>>,
     pub method: Option<String>,
     pub hook_targets: Option<Vec<String>>,
     pub tail_expr_idents: Option<Vec<String>>,
-- 
2.43.0


From 1793c1d857e797cb70bef76620807f971687cd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 10/29] fix: parenthesize $expr when it starts with a struct
 literal or a block

---
 hooq-macros/src/impls/method/render/mod.rs | 28 +++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 954dd85..bfaaab5 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -38,6 +38,30 @@ fn is_looser_than_method_call(expr: &Expr) -> bool {
     )
 }
 
+// 構造体リテラルやブロックで始まり、テンプレート中の位置(`match $expr { .. }` や文の先頭)によっては
+// そのまま置くと式全体として解釈されない式かどうか
+fn starts_with_struct_or_block(expr: &Expr) -> bool {
+    match expr {
+        Expr::Struct(_)
+        | Expr::Block(_)
+        | Expr::Const(_)
+        | Expr::ForLoop(_)
+        | Expr::If(_)
+        | Expr::Loop(_)
+        | Expr::Match(_)
+        | Expr::TryBlock(_)
+        | Expr::Unsafe(_)
+        | Expr::While(_) => true,
+        Expr::Await(e) => starts_with_struct_or_block(&e.base),
+        Expr::Call(e) => starts_with_struct_or_block(&e.func),
+        Expr::Field(e) => starts_with_struct_or_block(&e.base),
+        Expr::Index(e) => starts_with_struct_or_block(&e.expr),
+        Expr::MethodCall(e) => starts_with_struct_or_block(&e.receiver),
+        Expr::Try(e) => starts_with_struct_or_block(&e.expr),
+        _ => false,
+    }
+}
+
 impl HookInfo<'_> {
     pub fn render_expr_with_method(
         &self,
@@ -272,7 +296,9 @@ impl HookInfo<'_> {
                     #file
                 })
             }
-            Ok(MetaVars::Expr) => Ok(if is_looser_than_method_call(expr) {
+            Ok(MetaVars::Expr) => Ok(if is_looser_than_method_call(expr)
+                || starts_with_struct_or_block(expr)
+            {
                 quote! { (#expr) }
             } else {
                 expr.to_token_stream()
-- 
2.43.0


From 8855645074b0975483ec8cf7109d91780b8b10ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:51 +0000
Subject: [PATCH 11/29] fix: parenthesize bindings that bind looser than a
 method call

---
 hooq-macros/src/impls/method/render/mod.rs | 23 ++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index bfaaab5..b3ac086 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -62,6 +62,19 @@ fn starts_with_struct_or_block(expr: &Expr) -> bool {
     }
 }
 
+// テンプレート中のどこに置いても1つの式として解釈されるトークン列にする
+fn expr_to_operand(expr: &Expr) -> TokenStream {
+    // 属性値の `-1` は単項演算子ではなく負のリテラルとして得られる
+    let is_negative_lit =
+        matches!(expr, Expr::Lit(_)) && expr.to_token_stream().to_string().starts_with('-');
+
+    if is_negative_lit || is_looser_than_method_call(expr) || starts_with_struct_or_block(expr) {
+        quote! { (#expr) }
+    } else {
+        expr.to_token_stream()
+    }
+}
+
 impl HookInfo<'_> {
     pub fn render_expr_with_method(
         &self,
@@ -296,13 +309,7 @@ impl HookInfo<'_> {
                     #file
                 })
             }
-            Ok(MetaVars::Expr) => Ok(if is_looser_than_method_call(expr)
-                || starts_with_struct_or_block(expr)
-            {
-                quote! { (#expr) }
-            } else {
-                expr.to_token_stream()
-            }),
+            Ok(MetaVars::Expr) => Ok(expr_to_operand(expr)),
             Ok(MetaVars::Source) => {
                 let source_ts = self.source_tokenstream.clone();
 
@@ -395,7 +402,7 @@ available meta variables:
                     ));
                 };
 
-                Ok(expr.to_token_stream())
+                Ok(expr_to_operand(expr))
             }
         }
     }
-- 
2.43.0


From 88a457d5b7e83d08d9a3841cbda99bebc79c8b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:10 +0000
Subject: [PATCH 12/29] fix: keep attributes of an expression whose ? is
 consumed

---
 hooq-macros/src/impls/walker/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index 81285da..085c80d 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -3,7 +3,7 @@ use syn::spanned::Spanned;
 use syn::{
     Expr, ExprCall, ExprMacro, ExprPath, ImplItem, ImplItemConst, ImplItemMacro, Item, ItemConst,
     ItemMacro, ItemMod, ItemStatic, Local, LocalInit, Stmt, StmtMacro, TraitItem, TraitItemConst,
-    TraitItemFn, TraitItemMacro,
+    TraitItemFn, TraitItemMacro, parse_quote,
 };
 
 use crate::impls::inert_attr::context::{HookContext, HookTargetKind};
@@ -428,8 +428,13 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
                 )?;
 
                 match exc {
-                    // ? を消去
-                    Some(_) => Some(*expr_try.expr.clone()),
+                    // ? を消去 (付いていた属性は残す)
+                    Some(_) if expr_try.attrs.is_empty() => Some(*expr_try.expr.clone()),
+                    Some(_) => {
+                        let attrs = &expr_try.attrs;
+                        let expr = &expr_try.expr;
+                        Some(parse_quote! { #(#attrs)* (#expr) })
+                    }
                     // ? を残す
                     None => None,
                 }
-- 
2.43.0


From 8055c817ddcf20f806fd7013fbd38c6be6693057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:28 +0000
Subject: [PATCH 13/29] fix: size the line number column by the lines shown

---
 hooq-macros/src/impls/utils/source_excerpt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/utils/source_excerpt.rs b/hooq-macros/src/impls/utils/source_excerpt.rs
index d04d6ec..d5c0442 100644
--- a/hooq-macros/src/impls/utils/source_excerpt.rs
+++ b/hooq-macros/src/impls/utils/source_excerpt.rs
@@ -53,7 +53,6 @@ pub fn into_pretty_str(
     let mut current_column: Option<usize> = None;
 
     let start_line = expr.span().start().line;
-    let end_line = expr.span().end().line;
 
     let res = into_pretty_str_inner(
         expr.into_token_stream(),
@@ -63,6 +62,9 @@ pub fn into_pretty_str(
     );
 
     if show_line_num {
+        // NOTE: stable では複数トークンに跨るspanの終端が得られないため、出力行数から求める
+        let end_line = start_line + res.lines().count().saturating_sub(1);
+
         add_line_prefix(&res, start_line, end_line, top_padding, bottom_padding)
     } else {
         IntoPrettyStrRes {
-- 
2.43.0


From 9de4aa8200943a818a733368e955c3c76f9aec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:20 +0000
Subject: [PATCH 14/29] fix: report a $ that is followed by nothing in a
 template

---
 hooq-macros/src/impls/method/render/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index b3ac086..394ce36 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -157,28 +157,26 @@ impl HookInfo<'_> {
         method_context: Option<Rc<LocalContextField<Method>>>,
     ) -> syn::Result<TokenStream> {
         let mut res: TokenStream = TokenStream::new();
-        let mut next_is_replace_target = false;
+        let mut replace_target_marker: Option<Span> = None;
 
         for tt in ts.into_iter() {
             match tt {
                 TokenTree::Punct(punct) => {
-                    if next_is_replace_target {
+                    if replace_target_marker.is_some() {
                         return Err(syn::Error::new(punct.span(), "unexpected token after `$`"));
                     }
 
                     match punct.as_char() {
-                        '$' => next_is_replace_target = true,
+                        '$' => replace_target_marker = Some(punct.span()),
                         _ => res.extend([TokenTree::Punct(punct)]),
                     }
                 }
                 TokenTree::Ident(ident) => {
-                    if !next_is_replace_target {
+                    if replace_target_marker.take().is_none() {
                         res.extend([TokenTree::Ident(ident)]);
                         continue;
                     }
 
-                    next_is_replace_target = false;
-
                     res.extend([self.meta_vars2token_stream(
                         expr,
                         &ident,
@@ -187,7 +185,7 @@ impl HookInfo<'_> {
                     )?]);
                 }
                 TokenTree::Group(group) => {
-                    if next_is_replace_target {
+                    if replace_target_marker.is_some() {
                         return Err(syn::Error::new(group.span(), "unexpected token after `$`"));
                     }
 
@@ -203,7 +201,7 @@ impl HookInfo<'_> {
                     res.extend([TokenTree::Group(new_group)]);
                 }
                 TokenTree::Literal(literal) => {
-                    if next_is_replace_target {
+                    if replace_target_marker.is_some() {
                         return Err(syn::Error::new(
                             literal.span(),
                             "unexpected token after `$`",
@@ -215,6 +213,10 @@ impl HookInfo<'_> {
             }
         }
 
+        if let Some(span) = replace_target_marker {
+            return Err(syn::Error::new(span, "expected identifier after `$`"));
+        }
+
         Ok(res)
     }
 
-- 
2.43.0


From 507e1f563cfb34f14a74b9bd011fe8a914874a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 15/29] fix: look up the hooq crate name per project

---
 .../src/impls/utils/get_hooq_crate_name.rs    | 25 ++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
index faaaba4..732b63b 100644
--- a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
+++ b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
@@ -1,26 +1,23 @@
-use std::sync::OnceLock;
-
 use proc_macro_crate::{FoundCrate, crate_name};
 use syn::Path;
 
-pub fn get_hooq_crate_name() -> &'static str {
-    static RES: OnceLock<String> = OnceLock::new();
-
-    RES.get_or_init(|| {
-        let found_crate = crate_name("hooq").or_else(|_| crate_name("hooq-macros"));
+// NOTE:
+// 同じプロセスで複数のプロジェクトが展開されることがあるため、結果をここでは保持しない
+// (`crate_name` が CARGO_MANIFEST_DIR ごとにキャッシュしている)
+pub fn get_hooq_crate_name() -> String {
+    let found_crate = crate_name("hooq").or_else(|_| crate_name("hooq-macros"));
 
-        match found_crate {
-            Ok(FoundCrate::Itself) => "hooq".to_string(), // ファサードのREADMEにてこうするしかなかったため
-            Ok(FoundCrate::Name(name)) => name.replace("-", "_").to_string(),
-            Err(_) => "hooq".to_string(),
-        }
-    })
+    match found_crate {
+        Ok(FoundCrate::Itself) => "hooq".to_string(), // ファサードのREADMEにてこうするしかなかったため
+        Ok(FoundCrate::Name(name)) => name.replace("-", "_").to_string(),
+        Err(_) => "hooq".to_string(),
+    }
 }
 
 pub fn get_source_excerpt_helpers_name_space() -> Path {
     let crate_name = get_hooq_crate_name();
 
-    let source_excerpt_helpers_name_space = match crate_name {
+    let source_excerpt_helpers_name_space = match crate_name.as_str() {
         "hooq_macros" => "",
         _ => "::source_excerpt_helpers",
     };
-- 
2.43.0


From 04d004940a654a0ab6fef617b288ff3b1db9ec54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 16/29] fix: name HooqMeta and BindingPayload by the crate name
 in use

---
 hooq-macros/src/impls/method/render/mod.rs         |  8 ++++++--
 hooq-macros/src/impls/utils/get_hooq_crate_name.rs | 11 +++++++++++
 hooq-macros/src/impls/utils/mod.rs                 |  2 +-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 394ce36..f13d6f9 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -8,6 +8,7 @@ use syn::{Expr, Token, parse_quote};
 
 use crate::impls::inert_attr::context::{HookInfo, LocalContextField};
 use crate::impls::method::Method;
+use crate::impls::utils::get_hooq_name_space;
 
 mod meta_vars;
 
@@ -249,6 +250,8 @@ impl HookInfo<'_> {
     }
 
     fn get_bindings_token_stream(&self) -> TokenStream {
+        let hooq = get_hooq_name_space();
+
         let tuples = self
             .available_bindings()
             .into_iter()
@@ -260,7 +263,7 @@ impl HookInfo<'_> {
                         let expr = ::std::string::ToString::to_string(#expr);
                         let value: ::std::rc::Rc<dyn ::std::any::Any> = ::std::rc::Rc::new(#v);
 
-                        ::hooq::BindingPayload {
+                        #hooq ::BindingPayload {
                             expr,
                             value,
                         }
@@ -367,9 +370,10 @@ impl HookInfo<'_> {
                 let source_str = self.source_tokenstream.to_string();
                 let count = self.get_count();
                 let bindings = self.get_bindings_token_stream();
+                let hooq = get_hooq_name_space();
 
                 Ok(parse_quote! {
-                    ::hooq::HooqMeta {
+                    #hooq ::HooqMeta {
                         line: #line,
                         column: #column,
                         path: #path,
diff --git a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
index 732b63b..0930d1b 100644
--- a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
+++ b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
@@ -27,3 +27,14 @@ pub fn get_source_excerpt_helpers_name_space() -> Path {
     ))
     .unwrap()
 }
+
+/// `HooqMeta` や `BindingPayload` が置かれているクレートのパス
+pub fn get_hooq_name_space() -> Path {
+    let crate_name = match get_hooq_crate_name() {
+        // hooq-macros は proc-macro 以外を公開できない
+        name if name == "hooq_macros" => "hooq".to_string(),
+        name => name,
+    };
+
+    syn::parse_str::<Path>(&format!("::{crate_name}")).unwrap()
+}
diff --git a/hooq-macros/src/impls/utils/mod.rs b/hooq-macros/src/impls/utils/mod.rs
index e2bf711..8f2d990 100644
--- a/hooq-macros/src/impls/utils/mod.rs
+++ b/hooq-macros/src/impls/utils/mod.rs
@@ -8,7 +8,7 @@ mod source_excerpt;
 pub mod source_excerpt_macros;
 pub mod unexpected_error_message;
 
-pub use get_hooq_crate_name::get_source_excerpt_helpers_name_space;
+pub use get_hooq_crate_name::{get_hooq_name_space, get_source_excerpt_helpers_name_space};
 
 pub fn path_is_end_of(path: &Path, target: &str) -> bool {
     path.segments
-- 
2.43.0


From 9d87cb66d82f48949ee1a033750c71b092ffa2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 17/29] fix: keep a binding's value from seeing hooq's own
 variables

---
 hooq-macros/src/impls/method/render/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index f13d6f9..8543986 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -3,7 +3,7 @@ use std::str::FromStr;
 
 use meta_vars::{META_VARS_LIST, MetaVars};
 use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
-use quote::{ToTokens, quote};
+use quote::{ToTokens, quote, quote_spanned};
 use syn::{Expr, Token, parse_quote};
 
 use crate::impls::inert_attr::context::{HookInfo, LocalContextField};
@@ -258,7 +258,8 @@ impl HookInfo<'_> {
             .map(|(k, v)| -> TokenStream {
                 let expr = v.to_token_stream().to_string();
 
-                parse_quote! {
+                // `expr` や `value` は束縛の値に現れるユーザーの同名の変数を隠さないよう mixed_site とする
+                quote_spanned! {Span::mixed_site()=>
                     (::std::string::ToString::to_string(#k), {
                         let expr = ::std::string::ToString::to_string(#expr);
                         let value: ::std::rc::Rc<dyn ::std::any::Any> = ::std::rc::Rc::new(#v);
-- 
2.43.0


From f7981da19ffa9febb107daa0ef2da048a8c6b090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 18/29] fix: keep the place of $expr in replacing methods

The tokens of `$expr` at the top level of a template got the span of the
hooked `?`, so compile errors in the user's expression pointed there.
---
 hooq-macros/src/impls/method/render/mod.rs | 64 ++++++++++------------
 1 file changed, 28 insertions(+), 36 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 8543986..f761776 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -76,32 +76,40 @@ fn expr_to_operand(expr: &Expr) -> TokenStream {
     }
 }
 
+// テンプレート由来のトークンにのみ Span を設定する
+// `$expr` などの展開結果には元のソースコード上の Span を残す
+fn spanned(method_template: TokenStream, q_span: Span) -> TokenStream {
+    // NOTE:
+    // parse_quote_spanned! ではなぜか Span が正しく設定されない
+    // そのため、イテレータを活用して設定している
+    // TODO: もっと良い方法があればそちらに変更する
+    let mut is_meta_var = false;
+
+    method_template
+        .into_iter()
+        .map(|mut tt| {
+            let is_dollar = matches!(&tt, TokenTree::Punct(punct) if punct.as_char() == '$');
+
+            if !is_meta_var && !is_dollar {
+                tt.set_span(q_span);
+            }
+            is_meta_var = is_dollar;
+
+            tt
+        })
+        .collect()
+}
+
 impl HookInfo<'_> {
     pub fn render_expr_with_method(
         &self,
         expr: &mut Expr,
         q_span: Span,
     ) -> syn::Result<Option<Token![!]>> {
-        fn spanned(method: TokenStream, q_span: Span) -> TokenStream {
-            // NOTE:
-            // parse_quote_spanned! ではなぜか Span が正しく設定されない
-            // そのため、イテレータを活用して設定している
-            // TODO: もっと良い方法があればそちらに変更する
-            let method: TokenStream = method
-                .into_iter()
-                .map(|mut tt| {
-                    tt.set_span(q_span);
-                    tt
-                })
-                .collect();
-
-            method
-        }
-
         let (new_expr, exc): (Expr, Option<Token![!]>) = match self.method().clone() {
             Method::Insert(dot, method_template, exc) => {
+                let method_template = spanned(method_template, q_span);
                 let method = self.expand_meta_vars(expr, method_template, q_span, None)?;
-                let method = spanned(method, q_span);
 
                 (
                     if is_looser_than_method_call(expr) {
@@ -117,24 +125,8 @@ impl HookInfo<'_> {
                 )
             }
             Method::Replace(method_template, exc) => {
-                /*
-                // NOTE: Span を適切に設定するため、$expr の置換を後に行う
-                // 以下のようなコードの構想があったが、
-                // q_span で一気に書き換えても特に問題なく $expr に赤線が引かれたので、
-                // 2回展開を行うのはやめることとした
-                // 普段このようなコードは残さないがこちらはメモと共に残すべきと考えた
-
-                let mut pre_method = TokenStream::new();
-
-                self.expand_meta_vars(None, method_template, &mut pre_method, q_span)?;
-                let pre_method = spanned(pre_method, q_span);
-
-                let mut method = TokenStream::new();
-                self.expand_meta_vars(Some(expr), pre_method, &mut method, q_span)?;
-                */
-
+                let method_template = spanned(method_template, q_span);
                 let method = self.expand_meta_vars(expr, method_template, q_span, None)?;
-                let method = spanned(method, q_span);
 
                 (
                     parse_quote! {
@@ -357,8 +349,8 @@ impl HookInfo<'_> {
 
                 let (Method::Insert(_, ts, _) | Method::Replace(ts, _)) = &**ancestor;
 
-                let ancestor_method =
-                    self.expand_meta_vars(expr, ts.clone(), q_span, Some(ancestor))?;
+                let ts = spanned(ts.clone(), q_span);
+                let ancestor_method = self.expand_meta_vars(expr, ts, q_span, Some(ancestor))?;
 
                 Ok(ancestor_method)
             }
-- 
2.43.0


From 44608b1ed07d3dab9a3ce4d4e767713e0edf5eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 19/29] fix: call std's format! by its full path in the anyhow
 and eyre presets

---
 hooq-macros/src/impls/flavor/presets/anyhow.rs | 2 +-
 hooq-macros/src/impls/flavor/presets/eyre.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hooq-macros/src/impls/flavor/presets/anyhow.rs b/hooq-macros/src/impls/flavor/presets/anyhow.rs
index bcc4dbc..f55a726 100644
--- a/hooq-macros/src/impls/flavor/presets/anyhow.rs
+++ b/hooq-macros/src/impls/flavor/presets/anyhow.rs
@@ -22,7 +22,7 @@ fn anyhow_method() -> TokenStream {
             let col = $col;
             let expr = #excerpted_helpers_path ::excerpted_pretty_stringify!($source);
 
-            format!("[{path}:{line}:{col}]\n{expr}")
+            ::std::format!("[{path}:{line}:{col}]\n{expr}")
         })
     }
 }
diff --git a/hooq-macros/src/impls/flavor/presets/eyre.rs b/hooq-macros/src/impls/flavor/presets/eyre.rs
index bdff9b5..f508fb6 100644
--- a/hooq-macros/src/impls/flavor/presets/eyre.rs
+++ b/hooq-macros/src/impls/flavor/presets/eyre.rs
@@ -36,7 +36,7 @@ fn eyre_method() -> TokenStream {
             let col = $col;
             let expr = #excerpted_helpers_path ::excerpted_pretty_stringify!($source);
 
-            format!("[{path}:{line}:{col}]\n{expr}")
+            ::std::format!("[{path}:{line}:{col}]\n{expr}")
         })
     }
 }
-- 
2.43.0


From 85e1b83df62ec039f57d6c59880a41277cb77983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 20/29] fix: read #[::hooq::xxx] like #[hooq::xxx]

---
 hooq-macros/src/impls/inert_attr/parse.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/inert_attr/parse.rs b/hooq-macros/src/impls/inert_attr/parse.rs
index a3bf155..b4ffe9e 100644
--- a/hooq-macros/src/impls/inert_attr/parse.rs
+++ b/hooq-macros/src/impls/inert_attr/parse.rs
@@ -36,6 +36,25 @@ fn get_binding_name(path: &Path) -> syn::Result<Option<String>> {
     Ok(maybe_binding.map(|s| s.ident.to_string()))
 }
 
+/// `#[::hooq::xxx]` は `#[hooq::xxx]` と同じものとして扱う
+fn without_leading_colon(meta: &Meta) -> Meta {
+    let mut meta = meta.clone();
+
+    let (Meta::Path(path)
+    | Meta::List(MetaList { path, .. })
+    | Meta::NameValue(MetaNameValue { path, .. })) = &mut meta;
+
+    if path
+        .segments
+        .first()
+        .is_some_and(|segment| segment.ident == "hooq")
+    {
+        path.leading_colon = None;
+    }
+
+    meta
+}
+
 struct Strings(Vec<String>);
 
 impl Parse for Strings {
@@ -158,7 +177,7 @@ pub fn extract_hooq_info_from_attrs(attrs: &mut Vec<Attribute>) -> syn::Result<I
 
     let mut keeps = Vec::with_capacity(attrs.len());
     for attr in attrs.iter() {
-        match &attr.meta {
+        match &without_leading_colon(&attr.meta) {
             // flavor
             Meta::NameValue(MetaNameValue { path, value, .. }) if path == &hooq_flavor => {
                 let flavor_path: FlavorPath = get_flavor_path(value, "flavor")?;
-- 
2.43.0


From dad1e8ff208bf7bfb18189f78795942100a2f49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 21/29] fix: reject #[hooq::skip = ..] and the like

---
 hooq-macros/src/impls/inert_attr/parse.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hooq-macros/src/impls/inert_attr/parse.rs b/hooq-macros/src/impls/inert_attr/parse.rs
index b4ffe9e..5fff8ba 100644
--- a/hooq-macros/src/impls/inert_attr/parse.rs
+++ b/hooq-macros/src/impls/inert_attr/parse.rs
@@ -367,6 +367,15 @@ this format can set both tail_expr_idents and ignore_tail_expr_idents fields by
 
                 keeps.push(false);
             }
+            // `hooq::xxx = ...` の xxx は他の属性の名前と重複してはならない
+            Meta::NameValue(MetaNameValue { path, .. })
+                if path == &hooq_skip
+                    || path == &hooq_skip_all
+                    || path == &hooq_binding
+                    || path == &hooq_var =>
+            {
+                return Err(syn::Error::new_spanned(path, INERT_ATTRIBUTE_ERROR_MESSAGE));
+            }
             Meta::NameValue(MetaNameValue { path, value, .. }) => {
                 if let Some(binding) = get_binding_name(path)? {
                     bindings.insert(binding, value.clone());
-- 
2.43.0


From 379c5679f1015544080f0bc82a9e1270679f7e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 22/29] fix: see through expressions passed as macro_rules
 fragments

---
 hooq-macros/src/impls/utils/mod.rs  | 22 +++++++++++++++++++++-
 hooq-macros/src/impls/walker/mod.rs | 10 +++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/hooq-macros/src/impls/utils/mod.rs b/hooq-macros/src/impls/utils/mod.rs
index 8f2d990..21d0ea8 100644
--- a/hooq-macros/src/impls/utils/mod.rs
+++ b/hooq-macros/src/impls/utils/mod.rs
@@ -1,5 +1,5 @@
 pub use get_attrs::*;
-use syn::Path;
+use syn::{Expr, ExprGroup, Path};
 
 pub mod function_info;
 mod get_attrs;
@@ -16,3 +16,23 @@ pub fn path_is_end_of(path: &Path, target: &str) -> bool {
         .next_back()
         .is_some_and(|segment| segment.ident == target)
 }
+
+// `macro_rules!` の `$e:expr` などは、見えない区切りのグループとして渡される
+// 直接書かれた式と同じに扱えるよう、グループを外して中身の式に置き換える
+// (優先順位を保つために必要な括弧は、式を出力する際に syn が補う)
+pub fn ungroup(expr: &mut Expr) {
+    while let Expr::Group(ExprGroup {
+        attrs, expr: inner, ..
+    }) = expr
+    {
+        let mut attrs = std::mem::take(attrs);
+        let mut inner = std::mem::replace(&mut **inner, Expr::PLACEHOLDER);
+
+        if let Some(inner_attrs) = get_attrs_from_expr(&mut inner) {
+            attrs.append(inner_attrs);
+            *inner_attrs = attrs;
+        }
+
+        *expr = inner;
+    }
+}
diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index 085c80d..d29fcd3 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -9,7 +9,7 @@ use syn::{
 use crate::impls::inert_attr::context::{HookContext, HookTargetKind};
 use crate::impls::inert_attr::{HandleInertAttrsResult, handle_inert_attrs};
 use crate::impls::utils::function_info::{ClosureInfo, FunctionInfo};
-use crate::impls::utils::get_attrs_from_expr;
+use crate::impls::utils::{get_attrs_from_expr, ungroup};
 
 mod hook_expr;
 mod walk_macro;
@@ -62,6 +62,8 @@ fn handle_tail_expr(
     context: &HookContext,
     tail_expr_target_kind: TailExprTargetKind,
 ) -> syn::Result<()> {
+    ungroup(expr);
+
     let Some(attrs) = get_attrs_from_expr(expr) else {
         return Ok(());
     };
@@ -400,6 +402,8 @@ pub fn walk_item(item: &mut Item, context: &HookContext) -> syn::Result<()> {
 }
 
 fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
+    ungroup(expr);
+
     match expr {
         // 置換対象となるバリアント
         expr @ Expr::Try(..) => {
@@ -622,6 +626,8 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
                 ClosureInfo::new(expr_closure.clone(), context.local_context.fn_info.clone());
             context.update_fn_info(closure_info.into());
 
+            ungroup(&mut expr_closure.body);
+
             match &mut *expr_closure.body {
                 Expr::Block(expr_block) => {
                     let HandleInertAttrsResult {
@@ -822,6 +828,8 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
                         walk_expr(guard, &context)?;
                     }
 
+                    ungroup(&mut arm.body);
+
                     match &mut *arm.body {
                         expr @ Expr::Block(_) => {
                             walk_expr(expr, &context)?;
-- 
2.43.0


From b852264166de87bfd34e56225fc4b4c2a8322a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 23/29] fix: see a return type passed as a macro_rules fragment

---
 hooq-macros/src/impls/utils/function_info.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hooq-macros/src/impls/utils/function_info.rs b/hooq-macros/src/impls/utils/function_info.rs
index 05214bf..6539168 100644
--- a/hooq-macros/src/impls/utils/function_info.rs
+++ b/hooq-macros/src/impls/utils/function_info.rs
@@ -2,7 +2,7 @@ use std::ops::Deref;
 use std::rc::Rc;
 
 use quote::ToTokens;
-use syn::{ExprClosure, ReturnType, Signature, Type, TypePath, parse_quote};
+use syn::{ExprClosure, ReturnType, Signature, Type, TypeGroup, TypePath, parse_quote};
 
 use crate::impls::inert_attr::context::LocalContextField;
 use crate::impls::utils::path_is_end_of;
@@ -81,9 +81,16 @@ impl FunctionInfo {
 }
 
 fn return_type_is_result_inner(rt: &ReturnType, result_types: &[String]) -> bool {
-    if let ReturnType::Type(_, t) = rt
-        && let Type::Path(TypePath { path, .. }) = t.deref()
-    {
+    let ReturnType::Type(_, t) = rt else {
+        return false;
+    };
+    let mut t = t.deref();
+    // `macro_rules!` の `$t:ty` は見えない区切りのグループとして渡される
+    while let Type::Group(TypeGroup { elem, .. }) = t {
+        t = elem.deref();
+    }
+
+    if let Type::Path(TypePath { path, .. }) = t {
         result_types.iter().any(|s| path_is_end_of(path, s))
     } else {
         false
-- 
2.43.0


From ebbddd487c9d2ea5b49593c3d0af6f56091db858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 24/29] fix: keep the precedence of macro_rules fragments in
 methods and bindings

---
 hooq-macros/src/impls/method/render/mod.rs | 46 +++++++++++++++++++---
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index f761776..91136b8 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -2,7 +2,7 @@ use std::rc::Rc;
 use std::str::FromStr;
 
 use meta_vars::{META_VARS_LIST, MetaVars};
-use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
+use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
 use quote::{ToTokens, quote, quote_spanned};
 use syn::{Expr, Token, parse_quote};
 
@@ -63,8 +63,45 @@ fn starts_with_struct_or_block(expr: &Expr) -> bool {
     }
 }
 
+// `macro_rules!` の `$e:expr` などから作られた、見えない区切りのグループの中身かどうか
+// 見えない区切りは展開後に優先順位を保たないため、演算子などの式であれば括弧が要る
+fn group_needs_parens(group: &Group) -> bool {
+    group.delimiter() == Delimiter::None
+        && syn::parse2::<Expr>(group.stream()).is_ok_and(|expr| {
+            is_looser_than_method_call(&expr) && !matches!(expr, Expr::Assign(_) | Expr::Let(_))
+        })
+}
+
+fn new_group(group: &Group, stream: TokenStream) -> Group {
+    let delimiter = if group_needs_parens(group) {
+        Delimiter::Parenthesis
+    } else {
+        group.delimiter()
+    };
+
+    Group::new(delimiter, stream)
+}
+
+// 束縛の値に含まれる、見えない区切りのグループの優先順位を保つ
+fn keep_precedence(ts: TokenStream) -> TokenStream {
+    ts.into_iter()
+        .map(|tt| match tt {
+            TokenTree::Group(group) => {
+                let mut new_group = new_group(&group, keep_precedence(group.stream()));
+                new_group.set_span(group.span());
+                TokenTree::Group(new_group)
+            }
+            tt => tt,
+        })
+        .collect()
+}
+
 // テンプレート中のどこに置いても1つの式として解釈されるトークン列にする
 fn expr_to_operand(expr: &Expr) -> TokenStream {
+    if let Expr::Group(group) = expr {
+        return expr_to_operand(&group.expr);
+    }
+
     // 属性値の `-1` は単項演算子ではなく負のリテラルとして得られる
     let is_negative_lit =
         matches!(expr, Expr::Lit(_)) && expr.to_token_stream().to_string().starts_with('-');
@@ -189,9 +226,7 @@ impl HookInfo<'_> {
                         method_context.clone(),
                     )?;
 
-                    let new_group = Group::new(group.delimiter(), res_for_group);
-
-                    res.extend([TokenTree::Group(new_group)]);
+                    res.extend([TokenTree::Group(new_group(&group, res_for_group))]);
                 }
                 TokenTree::Literal(literal) => {
                     if replace_target_marker.is_some() {
@@ -249,6 +284,7 @@ impl HookInfo<'_> {
             .into_iter()
             .map(|(k, v)| -> TokenStream {
                 let expr = v.to_token_stream().to_string();
+                let v = keep_precedence(v.to_token_stream());
 
                 // `expr` や `value` は束縛の値に現れるユーザーの同名の変数を隠さないよう mixed_site とする
                 quote_spanned! {Span::mixed_site()=>
@@ -401,7 +437,7 @@ available meta variables:
                     ));
                 };
 
-                Ok(expr_to_operand(expr))
+                Ok(keep_precedence(expr_to_operand(expr)))
             }
         }
     }
-- 
2.43.0


From 970227685b8df6d82eb58a1db17ed9e0484b4d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 25/29] fix: accept a flavor name passed as a macro_rules
 fragment

---
 hooq-macros/src/impls/inert_attr/parse.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hooq-macros/src/impls/inert_attr/parse.rs b/hooq-macros/src/impls/inert_attr/parse.rs
index 5fff8ba..848b07e 100644
--- a/hooq-macros/src/impls/inert_attr/parse.rs
+++ b/hooq-macros/src/impls/inert_attr/parse.rs
@@ -4,8 +4,8 @@ use proc_macro2::Span;
 use syn::parse::Parse;
 use syn::spanned::Spanned;
 use syn::{
-    Attribute, Expr, ExprLit, ExprPath, Lit, LitBool, LitStr, Meta, MetaList, MetaNameValue, Path,
-    Token, parse_quote,
+    Attribute, Expr, ExprGroup, ExprLit, ExprPath, Lit, LitBool, LitStr, Meta, MetaList,
+    MetaNameValue, Path, Token, parse_quote,
 };
 
 use crate::impls::flavor::{Flavor, FlavorPath, FlavorStore};
@@ -114,6 +114,7 @@ This format overrides the corresponding setting with the one defined in the spec
 
 fn get_flavor_path(value: &Expr, setting_name: &str) -> syn::Result<FlavorPath> {
     match value {
+        Expr::Group(ExprGroup { expr, .. }) => get_flavor_path(expr, setting_name),
         Expr::Path(ExprPath { path, .. }) => Ok(path
             .try_into()
             .map_err(|e| syn::Error::new_spanned(path, e))?),
-- 
2.43.0


From a4791784640f6737c91783e57f6fe5fe6ce2c81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 26/29] fix: accept labels and let statements passed as
 macro_rules fragments

---
 hooq-macros/src/impls/utils/mod.rs | 48 ++++++++++++++++++++++++++++++
 hooq-macros/src/lib.rs             |  1 +
 2 files changed, 49 insertions(+)

diff --git a/hooq-macros/src/impls/utils/mod.rs b/hooq-macros/src/impls/utils/mod.rs
index 21d0ea8..1c1be6e 100644
--- a/hooq-macros/src/impls/utils/mod.rs
+++ b/hooq-macros/src/impls/utils/mod.rs
@@ -1,4 +1,5 @@
 pub use get_attrs::*;
+use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
 use syn::{Expr, ExprGroup, Path};
 
 pub mod function_info;
@@ -36,3 +37,50 @@ pub fn ungroup(expr: &mut Expr) {
         *expr = inner;
     }
 }
+
+// syn は、見えない区切りの中の `'a` (`$l:lifetime` によるラベル)と、
+// 型注釈や `else` などのある `let` 文 (`$s:stmt`) を解釈できない
+// これらを囲む区切りは意味を持たないため、外して直接書かれたものと同じにする
+pub fn splice_lifetimes_and_lets(ts: TokenStream) -> TokenStream {
+    try_splice_lifetimes_and_lets(&ts).unwrap_or(ts)
+}
+
+// 外すものがなければ、元のトークンの Span をそのまま残すため None を返す
+fn try_splice_lifetimes_and_lets(ts: &TokenStream) -> Option<TokenStream> {
+    let mut is_spliced = false;
+
+    let new_ts: TokenStream = ts
+        .clone()
+        .into_iter()
+        .flat_map(|tt| {
+            let TokenTree::Group(group) = &tt else {
+                return TokenStream::from(tt);
+            };
+
+            let new_stream = try_splice_lifetimes_and_lets(&group.stream());
+
+            let is_lifetime_or_let = match group.stream().into_iter().next() {
+                Some(TokenTree::Punct(punct)) => punct.as_char() == '\'',
+                Some(TokenTree::Ident(ident)) => ident == "let",
+                _ => false,
+            };
+
+            if group.delimiter() == Delimiter::None && is_lifetime_or_let {
+                is_spliced = true;
+                return new_stream.unwrap_or(group.stream());
+            }
+
+            let Some(new_stream) = new_stream else {
+                return TokenStream::from(tt);
+            };
+
+            is_spliced = true;
+            let mut new_group = Group::new(group.delimiter(), new_stream);
+            new_group.set_span(group.span());
+
+            TokenTree::Group(new_group).into()
+        })
+        .collect();
+
+    is_spliced.then_some(new_ts)
+}
diff --git a/hooq-macros/src/lib.rs b/hooq-macros/src/lib.rs
index 1637971..33f7b76 100644
--- a/hooq-macros/src/lib.rs
+++ b/hooq-macros/src/lib.rs
@@ -16,6 +16,7 @@ mod impls;
 /// For more information, see [hooq Reference](https://anotherhollow1125.github.io/hooq/latest/en/).
 #[proc_macro_attribute]
 pub fn hooq(attr: TokenStream, item: TokenStream) -> TokenStream {
+    let item: TokenStream = impls::utils::splice_lifetimes_and_lets(item.into()).into();
     let item = parse_macro_input!(item as Item);
 
     impls::hooq_impls(attr.into(), item)
-- 
2.43.0


From 129ebf570107154b5ef3c5a1f63698efb2e6783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 27/29] fix: report the same mistake of hooq.toml on every run

---
 hooq-macros/src/impls/flavor/toml_load/apply.rs |  4 ++--
 hooq-macros/src/impls/flavor/toml_load/mod.rs   | 10 ++++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/hooq-macros/src/impls/flavor/toml_load/apply.rs b/hooq-macros/src/impls/flavor/toml_load/apply.rs
index dd11fbe..b139064 100644
--- a/hooq-macros/src/impls/flavor/toml_load/apply.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/apply.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::rc::Rc;
 
 use proc_macro2::TokenStream;
@@ -34,7 +34,7 @@ fn split_include_or_not_include(idents: Vec<String>) -> (Vec<String>, Vec<String
 
 fn update_flavor_inner(
     flavors: &mut HashMap<String, Flavor>,
-    flavor_tables: HashMap<String, FlavorTable>,
+    flavor_tables: BTreeMap<String, FlavorTable>,
     base_flavor: &Flavor,
 ) -> Result<(), String> {
     for (
diff --git a/hooq-macros/src/impls/flavor/toml_load/mod.rs b/hooq-macros/src/impls/flavor/toml_load/mod.rs
index 3cc0530..e1b4138 100644
--- a/hooq-macros/src/impls/flavor/toml_load/mod.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/mod.rs
@@ -1,13 +1,15 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use serde::Deserialize;
 
 pub mod apply;
 
+// NOTE:
+// 複数の誤りがある時に報告されるものが実行ごとに変わらないよう、順序の定まる BTreeMap とする
 #[derive(Deserialize, Debug, Clone)]
 pub struct HooqToml {
     #[serde(flatten)]
-    pub flavors: HashMap<String, FlavorTable>,
+    pub flavors: BTreeMap<String, FlavorTable>,
 }
 
 #[derive(Deserialize, Debug, Clone)]
@@ -20,9 +22,9 @@ pub struct FlavorTable {
     pub result_types: Option<Vec<String>>,
     pub hook_in_macros: Option<bool>,
     #[serde(default)]
-    pub bindings: HashMap<String, String>,
+    pub bindings: BTreeMap<String, String>,
     #[serde(flatten)]
-    pub sub_flavors: HashMap<String, FlavorTable>,
+    pub sub_flavors: BTreeMap<String, FlavorTable>,
 }
 
 #[cfg(test)]
-- 
2.43.0


From 380ffd527b8accf64ba52f942b21be6660afcaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 28/29] fix: list the available flavors in the same order on
 every run

---
 hooq-macros/src/impls/flavor/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hooq-macros/src/impls/flavor/mod.rs b/hooq-macros/src/impls/flavor/mod.rs
index 57b7c49..bd9ea47 100644
--- a/hooq-macros/src/impls/flavor/mod.rs
+++ b/hooq-macros/src/impls/flavor/mod.rs
@@ -200,6 +200,9 @@ impl FlavorStore {
             collect_names(flavor, name, &mut names);
         }
 
+        // HashMap の順序は実行ごとに異なるため、出力が一意になるようソート
+        names.sort();
+
         names
     }
 }
-- 
2.43.0


From b3ae318ba888bad649721059082a37a0cf66e83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 29/29] fix: keep `$expr` that is a brace macro call one
 operand at the start of a statement

---
 hooq-macros/src/impls/method/render/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 91136b8..8f79c2a 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -4,7 +4,7 @@ use std::str::FromStr;
 use meta_vars::{META_VARS_LIST, MetaVars};
 use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
 use quote::{ToTokens, quote, quote_spanned};
-use syn::{Expr, Token, parse_quote};
+use syn::{Expr, MacroDelimiter, Token, parse_quote};
 
 use crate::impls::inert_attr::context::{HookInfo, LocalContextField};
 use crate::impls::method::Method;
@@ -57,6 +57,8 @@ fn starts_with_struct_or_block(expr: &Expr) -> bool {
         Expr::Call(e) => starts_with_struct_or_block(&e.func),
         Expr::Field(e) => starts_with_struct_or_block(&e.base),
         Expr::Index(e) => starts_with_struct_or_block(&e.expr),
+        // `m! { .. }` も文の先頭では文として解釈される
+        Expr::Macro(e) => matches!(e.mac.delimiter, MacroDelimiter::Brace(_)),
         Expr::MethodCall(e) => starts_with_struct_or_block(&e.receiver),
         Expr::Try(e) => starts_with_struct_or_block(&e.expr),
         _ => false,
-- 
2.43.0

