From ccb4ef19c45af0b47da97789be68926f26ecc080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:02 +0000
Subject: [PATCH 01/11] fix: walk the left-hand side of an assignment

`a()?.x = v` was the only place where the `?` of an expression was neither
hooked nor its hooq attributes consumed: Expr::Assign only visited the
right-hand side, while the compound assignments visited both sides.
---
 hooq-macros/src/impls/walker/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index 0994516..e5c3109 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -492,6 +492,7 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
                 new_context: context,
             } = handle_inert_attrs(&mut expr_assign.attrs, context)?;
 
+            walk_expr(&mut expr_assign.left, &context)?;
             walk_expr(&mut expr_assign.right, &context)
         }
         Expr::Async(expr_async) => {
-- 
2.43.0


From 008ac0fc5c9ee6330e2abe8270a7ef0e09bb7dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:02 +0000
Subject: [PATCH 02/11] fix: keep skip_all in force under a nested skip

`#[hooq::skip]` inside a `#[hooq::skip_all]` region replaced the inherited
skip_all, so the sub-scopes of the skipped node were hooked again.
---
 hooq-macros/src/impls/inert_attr/context.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/inert_attr/context.rs b/hooq-macros/src/impls/inert_attr/context.rs
index e915345..116911e 100644
--- a/hooq-macros/src/impls/inert_attr/context.rs
+++ b/hooq-macros/src/impls/inert_attr/context.rs
@@ -222,8 +222,13 @@ impl HookContext {
     }
 
     pub fn updated_by_inert_attr(parent_context: &HookContext, inert_attr: InertAttribute) -> Self {
+        // skip_all の内側にある skip で skip_all が解除されてしまわないようにする
+        let new_skip_status = match &**parent_context.local_context.skip_status {
+            Some(SkipStatus::SkipAll) => None,
+            _ => inert_attr.get_skip_status(),
+        };
         let skip_status = LocalContextField::from_parent(
-            inert_attr.get_skip_status().map(Option::Some),
+            new_skip_status.map(Option::Some),
             &parent_context.local_context.skip_status,
         );
         let InertAttribute {
-- 
2.43.0


From 723838d099d20942050dba430450b41e3494eafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:02 +0000
Subject: [PATCH 03/11] fix: reject a trailing `$` in a method instead of
 dropping it

A `$` followed by anything but a name was an error, except at the end of the
method or of a group, where it silently disappeared from the expansion.
---
 hooq-macros/src/impls/method/render/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 5a9be92..d8a630e 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -95,6 +95,7 @@ impl HookInfo<'_> {
     ) -> syn::Result<TokenStream> {
         let mut res: TokenStream = TokenStream::new();
         let mut next_is_replace_target = false;
+        let mut last_dollar_span = q_span;
 
         for tt in ts.into_iter() {
             match tt {
@@ -104,7 +105,10 @@ impl HookInfo<'_> {
                     }
 
                     match punct.as_char() {
-                        '$' => next_is_replace_target = true,
+                        '$' => {
+                            next_is_replace_target = true;
+                            last_dollar_span = punct.span();
+                        }
                         _ => res.extend([TokenTree::Punct(punct)]),
                     }
                 }
@@ -152,6 +156,14 @@ impl HookInfo<'_> {
             }
         }
 
+        // `$` の後に何もない場合、黙って `$` を捨てずにエラーとする
+        if next_is_replace_target {
+            return Err(syn::Error::new(
+                last_dollar_span,
+                "expected meta variable name after `$`",
+            ));
+        }
+
         Ok(res)
     }
 
-- 
2.43.0


From e1fe8b37c6afb32c36d64fdf5f8bd24a8e501a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:02 +0000
Subject: [PATCH 04/11] fix: keep line numbers right after a multi-line literal

into_pretty_str_inner remembered the line a token starts on, so the line
breaks inside a multi-line string literal were printed twice and every
following line got a wrong number.
---
 hooq-macros/src/impls/utils/source_excerpt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/utils/source_excerpt.rs b/hooq-macros/src/impls/utils/source_excerpt.rs
index 6393552..909a9af 100644
--- a/hooq-macros/src/impls/utils/source_excerpt.rs
+++ b/hooq-macros/src/impls/utils/source_excerpt.rs
@@ -336,7 +336,8 @@ fn into_pretty_str_inner(
 
         res.push_str(tt_str);
 
-        *current_line = Some(tt_line);
+        // 複数行にわたる文字列リテラル等が出力済みの改行を二重に数えないようにする
+        *current_line = Some(tt_line + tt_str.matches('\n').count());
         *current_column = Some(tt_end_column);
     }
 
-- 
2.43.0


From 49e8827e390af81ac4b7284e5e75380674c72646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:02 +0000
Subject: [PATCH 05/11] fix: process hooq attributes on match arms

`#[hooq::skip]` and the other hooq attributes were left in the output when
they stood on a match arm, where they fail to compile, and had no effect.
---
 hooq-macros/src/impls/walker/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index e5c3109..10bd998 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -807,6 +807,11 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
                 .arms
                 .iter_mut()
                 .map(|arm| {
+                    let HandleInertAttrsResult {
+                        is_skipped: _,
+                        new_context: context,
+                    } = handle_inert_attrs(&mut arm.attrs, &context)?;
+
                     if let Some((_, guard)) = arm.guard.as_mut() {
                         walk_expr(guard, &context)?;
                     }
-- 
2.43.0


From eeade9dcced976a6703e49d6ef98c1661c27ddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:02 +0000
Subject: [PATCH 06/11] fix: do not hook a tail `return` a second time as a
 tail expression

`return Err(x)` without a semicolon at the end of a function got the method
twice, and `return Ok(x)` got it in spite of ignore_tail_expr_idents.
---
 hooq-macros/src/impls/walker/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index 10bd998..b1069ff 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -79,6 +79,11 @@ fn handle_tail_expr(
         return Ok(());
     }
 
+    // 末尾の return は walk_expr の方で return として処理済み
+    if matches!(expr, Expr::Return(_)) {
+        return Ok(());
+    }
+
     let TargetCallCheckBools {
         is_target_call,
         is_not_target_call,
-- 
2.43.0


From ef78b173751c96e9cd34c87dad2a0879a3936c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:02 +0000
Subject: [PATCH 07/11] fix: hook the whole expression when it binds weaker
 than a method call

A hooked `return a + b` became `return a + b.method()`, `*r` became
`*r.method()`, and a cast made the macro panic: put such an expression in
parentheses before the method is appended.
---
 hooq-macros/src/impls/method/render/mod.rs | 23 +++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index d8a630e..4ca2d14 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -3,7 +3,7 @@ use std::str::FromStr;
 
 use meta_vars::{META_VARS_LIST, MetaVars};
 use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
-use quote::ToTokens;
+use quote::{ToTokens, quote};
 use syn::{Expr, Token, parse_quote};
 
 use crate::impls::inert_attr::context::{HookInfo, LocalContextField};
@@ -18,6 +18,26 @@ fn get_file_name(q_span: Span) -> String {
     file.to_string()
 }
 
+/// `a + b` などにそのままメソッドをつなげると `b` に対するメソッド呼び出しになってしまうため、
+/// 後置の演算より結合の弱い式は括弧で囲む
+fn parenthesize_if_needed(expr: &Expr) -> TokenStream {
+    match expr {
+        Expr::Assign(_)
+        | Expr::Binary(_)
+        | Expr::Break(_)
+        | Expr::Cast(_)
+        | Expr::Closure(_)
+        | Expr::Let(_)
+        | Expr::Range(_)
+        | Expr::RawAddr(_)
+        | Expr::Reference(_)
+        | Expr::Return(_)
+        | Expr::Unary(_)
+        | Expr::Yield(_) => quote! { (#expr) },
+        _ => expr.to_token_stream(),
+    }
+}
+
 impl HookInfo<'_> {
     pub fn render_expr_with_method(
         &self,
@@ -44,6 +64,7 @@ impl HookInfo<'_> {
             Method::Insert(dot, method_template, exc) => {
                 let method = self.expand_meta_vars(expr, method_template, q_span, None)?;
                 let method = spanned(method, q_span);
+                let expr = parenthesize_if_needed(expr);
 
                 (
                     parse_quote! {
-- 
2.43.0


From 3bab8f653ae634075224af85d65b5f33dd726ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:09 +0000
Subject: [PATCH 08/11] fix: keep inner attributes of hooked macro arguments

---
 hooq-macros/src/impls/walker/walk_macro.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/hooq-macros/src/impls/walker/walk_macro.rs b/hooq-macros/src/impls/walker/walk_macro.rs
index e7926c1..a8b9e86 100644
--- a/hooq-macros/src/impls/walker/walk_macro.rs
+++ b/hooq-macros/src/impls/walker/walk_macro.rs
@@ -46,14 +46,20 @@ fn handle_token_stream(
         .into_iter()
         .map(|(eval, punct)| {
             let eval_hooked = match eval {
-                Evaluable::File(file) => file
-                    .items
-                    .into_iter()
-                    .map(|mut item| {
-                        walk_item(&mut item, context)?;
-                        Ok(item.into_token_stream())
-                    })
-                    .collect::<syn::Result<_>>()?,
+                Evaluable::File(file) => {
+                    // `#![...]` を捨ててしまわないように残す
+                    let attrs = file.attrs;
+                    let items: TokenStream = file
+                        .items
+                        .into_iter()
+                        .map(|mut item| {
+                            walk_item(&mut item, context)?;
+                            Ok(item.into_token_stream())
+                        })
+                        .collect::<syn::Result<_>>()?;
+
+                    quote! { #(#attrs)* #items }
+                }
                 Evaluable::Expr(mut expr) => {
                     walk_expr(&mut expr, context)?;
                     expr.into_token_stream()
-- 
2.43.0


From 2afc96f6e083a320af6c2f1dba9cd7fbcfc64639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:50 +0000
Subject: [PATCH 09/11] fix: align line numbers when an expression crosses a
 power of ten

On stable the span of a whole expression is that of its first token, so the
width was taken from the first line instead of the last.
---
 hooq-macros/src/impls/utils/source_excerpt.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hooq-macros/src/impls/utils/source_excerpt.rs b/hooq-macros/src/impls/utils/source_excerpt.rs
index 909a9af..9b2b585 100644
--- a/hooq-macros/src/impls/utils/source_excerpt.rs
+++ b/hooq-macros/src/impls/utils/source_excerpt.rs
@@ -53,7 +53,6 @@ pub fn into_pretty_str(
     let mut current_column: Option<usize> = None;
 
     let start_line = expr.span().start().line;
-    let end_line = expr.span().end().line;
 
     let res = into_pretty_str_inner(
         expr.into_token_stream(),
@@ -63,7 +62,7 @@ pub fn into_pretty_str(
     );
 
     if show_line_num {
-        add_line_prefix(&res, start_line, end_line, top_padding, bottom_padding)
+        add_line_prefix(&res, start_line, top_padding, bottom_padding)
     } else {
         IntoPrettyStrRes {
             body: res,
@@ -425,10 +424,11 @@ fn delim_end(d: Delimiter) -> &'static str {
 fn add_line_prefix(
     s: &str,
     start_line: usize,
-    end_line: usize,
     top_padding: bool,
     bottom_padding: bool,
 ) -> IntoPrettyStrRes {
+    // stable では複数トークンの Span を結合できず式の末尾の行番号が取れないため、行数から求める
+    let end_line = start_line + s.lines().count().saturating_sub(1);
     let padding_num = end_line.to_string().chars().count().max(4);
     let mut res = Vec::new();
     let mut index = start_line;
-- 
2.43.0


From 6048496f9d872658e7995aea9555221c23ffa42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 10/11] fix: resolve the hooq crate's name per project, not
 once per compiler process

get_hooq_crate_name() kept the name it found first in a process-wide
OnceLock.  Where one process expands several crates (rust-analyzer), a crate
that renames hooq, or depends on hooq-macros only, got the first crate's
name in the paths of the presets' methods.  proc-macro-crate already keeps a
cache per manifest.
---
 .../src/impls/utils/get_hooq_crate_name.rs    | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
index faaaba4..a71e7d9 100644
--- a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
+++ b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
@@ -1,26 +1,24 @@
-use std::sync::OnceLock;
-
 use proc_macro_crate::{FoundCrate, crate_name};
 use syn::Path;
 
-pub fn get_hooq_crate_name() -> &'static str {
-    static RES: OnceLock<String> = OnceLock::new();
-
-    RES.get_or_init(|| {
-        let found_crate = crate_name("hooq").or_else(|_| crate_name("hooq-macros"));
+// NOTE:
+// rust-analyzer では1つのプロセスで複数のクレートが展開されるため、
+// クレート名をプロセス全体でキャッシュしてはならない
+// (マニフェスト毎のキャッシュは proc-macro-crate 側で行われている)
+pub fn get_hooq_crate_name() -> String {
+    let found_crate = crate_name("hooq").or_else(|_| crate_name("hooq-macros"));
 
-        match found_crate {
-            Ok(FoundCrate::Itself) => "hooq".to_string(), // ファサードのREADMEにてこうするしかなかったため
-            Ok(FoundCrate::Name(name)) => name.replace("-", "_").to_string(),
-            Err(_) => "hooq".to_string(),
-        }
-    })
+    match found_crate {
+        Ok(FoundCrate::Itself) => "hooq".to_string(), // ファサードのREADMEにてこうするしかなかったため
+        Ok(FoundCrate::Name(name)) => name.replace("-", "_").to_string(),
+        Err(_) => "hooq".to_string(),
+    }
 }
 
 pub fn get_source_excerpt_helpers_name_space() -> Path {
     let crate_name = get_hooq_crate_name();
 
-    let source_excerpt_helpers_name_space = match crate_name {
+    let source_excerpt_helpers_name_space = match crate_name.as_str() {
         "hooq_macros" => "",
         _ => "::source_excerpt_helpers",
     };
-- 
2.43.0


From e4ba35f6261c01afd38c8d3af000930b46b2487b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 11/11] fix: keep the attributes of a consumed `?`

---
 hooq-macros/src/impls/walker/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index b1069ff..96922fc 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -428,7 +428,16 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
 
                 match exc {
                     // ? を消去
-                    Some(_) => Some(*expr_try.expr.clone()),
+                    Some(_) => {
+                        let mut new_expr = *expr_try.expr.clone();
+
+                        // ? についていた属性まで消してしまわないようにする
+                        if let Some(attrs) = get_attrs_from_expr(&mut new_expr) {
+                            *attrs = [expr_try.attrs.clone(), attrs.clone()].concat();
+                        }
+
+                        Some(new_expr)
+                    }
                     // ? を残す
                     None => None,
                 }
-- 
2.43.0

