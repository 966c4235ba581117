From e1c1e6e48269ff09e4f6c20c06d5f67bce55ce64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 1/6] fix: add the first tokens of an empty-deriving symbol to
 its context's first set

generate_first_table skipped a non-terminal symbol that can be empty without adding
the tokens its phrases begin with.
---
 src/first.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/first.rs b/src/first.rs
index 3694540..00ffb35 100644
--- a/src/first.rs
+++ b/src/first.rs
@@ -75,15 +75,15 @@ pub fn generate_first_table<A>(grammar: &Grammar<A>) -> FirstTable {
                 for symbol in &production.symbols {
                     match &symbol.symbol {
                         Symbol::NonTerminal(nt) => {
-                            let FirstSet { empty, terminals } = table.get_first(*nt);
-                            if *empty {
-                                // Continue to the next symbol in the production
-                                continue;
-                            }
                             // TODO: clone below to avoid borrowck issues
-                            for terminal in terminals.clone() {
+                            let FirstSet { empty, terminals } = table.get_first(*nt).clone();
+                            for terminal in terminals {
                                 updated |= table.add_first(non_terminal_idx, terminal);
                             }
+                            if empty {
+                                // Continue to the next symbol in the production
+                                continue;
+                            }
                             continue 'production_loop;
                         }
                         Symbol::Terminal(terminal) => {
-- 
2.43.0


From 6210adc149b323bb41565c60a18d2cf4e46dfdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 2/6] fix: rerun the first-set computation when a non-terminal
 is found to be empty

Marking a non-terminal empty because all symbols of a production are was not counted as
a change, so the iteration could end before this reached the non-terminals that use it.
---
 src/first.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/first.rs b/src/first.rs
index 00ffb35..5248494 100644
--- a/src/first.rs
+++ b/src/first.rs
@@ -94,7 +94,7 @@ pub fn generate_first_table<A>(grammar: &Grammar<A>) -> FirstTable {
                 }
                 // If we reached here then all symbols in the production are empty, so the
                 // non-terminal can be empty
-                table.set_empty(non_terminal_idx);
+                updated |= table.set_empty(non_terminal_idx);
             }
         }
     }
-- 
2.43.0


From 88e68e5dfb3f00a92ae7777afce1737543c2e11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 3/6] fix: refuse a grammar in which a reduction competes with
 accepting the input

---
 src/lr_common.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lr_common.rs b/src/lr_common.rs
index 2c9e923..52f95cf 100644
--- a/src/lr_common.rs
+++ b/src/lr_common.rs
@@ -148,13 +148,19 @@ impl<A: fmt::Debug + Eq> LRTableBuilder<A> {
     }
 
     pub fn add_accept(&mut self, state: StateIdx) {
-        let _old = self
+        let old_action = self
             .table
             .action
             .entry(state)
             .or_default()
             .insert(None, LRAction::Accept);
-        // assert_eq!(old, None);
+
+        if let Some(LRAction::Reduce(nt_, p_, _)) = old_action {
+            panic!(
+                "({}, None): Overriding Reduce({}, {}) action with Accept",
+                state.0, nt_.0, p_.0,
+            );
+        }
     }
 
     pub fn add_goto(&mut self, state: StateIdx, non_terminal_idx: NonTerminalIdx, next: StateIdx) {
-- 
2.43.0


From 1dac3feb0e61faa7a6aaa5f21930434fccea8ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:48 +0000
Subject: [PATCH 4/6] fix: keep the comma of a one-element tuple in the
 generated token pattern

---
 src/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 1245dd8..8a4e2e0 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -436,7 +436,7 @@ fn generate_pattern_syn_with_idents_(pat: &Pattern, idents: &mut Vec<syn::Ident>
                 .map(|pat| generate_pattern_syn_with_idents_(pat, idents))
                 .collect();
 
-            quote!((#(#pats),*))
+            quote!((#(#pats,)*))
         }
 
         Pattern::Path(path) => quote!(#path),
-- 
2.43.0


From b077ac68e52a008d5509eac8c3c340f4cc291f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:36 +0000
Subject: [PATCH 5/6] fix: keep the value stack of generated actions apart from
 symbols named value_stack

---
 src/codegen.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 8a4e2e0..8e2ed20 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -27,6 +27,9 @@ pub fn generate_semantic_action_table(
         terminals,
     } = grammar;
 
+    // Local to the generated code: symbols in productions can have any name
+    let value_stack = syn::Ident::new("value_stack", Span::mixed_site());
+
     // Action function declarations and the array
     let mut decls: Vec<TokenStream> = vec![];
     let mut fn_names: Vec<syn::Ident> = vec![];
@@ -55,7 +58,7 @@ pub fn generate_semantic_action_table(
                         for BoundSymbol { binder, symbol: kind } in symbols.iter().rev() {
                             match binder {
                                 None => {
-                                    pop_code.push(quote!(value_stack.pop()));
+                                    pop_code.push(quote!(#value_stack.pop()));
                                 }
                                 Some(Name {
                                     mutable,
@@ -73,7 +76,7 @@ pub fn generate_semantic_action_table(
                                         ),
                                     };
                                     pop_code.push(quote!(
-                                        let #mut_ #name = value_stack.pop().unwrap().#extract_method()
+                                        let #mut_ #name = #value_stack.pop().unwrap().#extract_method()
                                     ));
                                 }
                             }
@@ -92,10 +95,10 @@ pub fn generate_semantic_action_table(
 
                         decls.push(quote!(
                             fn #fn_name<#(#token_lifetimes),*>(
-                                value_stack: &mut Vec<SemanticActionResult<#(#token_lifetimes),*>>
+                                #value_stack: &mut Vec<SemanticActionResult<#(#token_lifetimes),*>>
                             ) {
                                 #(#pop_code;)*
-                                value_stack.push(SemanticActionResult::#non_terminal_variant(#action));
+                                #value_stack.push(SemanticActionResult::#non_terminal_variant(#action));
                             }
                         ));
 
-- 
2.43.0


From 00229313b6ac4553c8e692d0dab39443473c86ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:33 +0000
Subject: [PATCH 6/6] fix: let a public non-terminal have a raw identifier as
 its name

---
 src/lr_codegen.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lr_codegen.rs b/src/lr_codegen.rs
index a1bb892..cb20044 100644
--- a/src/lr_codegen.rs
+++ b/src/lr_codegen.rs
@@ -81,8 +81,10 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
         .map(|(non_terminal_idx, parser_state)| {
             let parser_state = u32::try_from(parser_state.as_usize()).unwrap();
             let non_terminal = grammar.get_non_terminal(non_terminal_idx);
-            let non_terminal_name_id =
-                syn::Ident::new(&non_terminal.non_terminal, Span::call_site());
+            let non_terminal_name_id = match non_terminal.non_terminal.strip_prefix("r#") {
+                None => syn::Ident::new(&non_terminal.non_terminal, Span::call_site()),
+                Some(name) => syn::Ident::new_raw(name, Span::call_site()),
+            };
             let non_terminal_return_type = &non_terminal.return_ty;
             let action_idx = usize::from(
                 grammar
-- 
2.43.0

