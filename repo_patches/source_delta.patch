From 63c236bc5fa59e13304c9be2c4292856ca231164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:49 +0000
Subject: [PATCH 01/24] fix: reject a token that is its own fallback

The loop check of %fallback started at the fallback of the target, so
'%fallback A A;' was accepted and the macro then looped forever.
---
 pomelo-impl/src/parser/mod.rs | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index c5b1919..023a2ef 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1876,22 +1876,13 @@ impl Pomelo {
                 // Check that the new fallbacks do not create a fallback-loop.
                 // That would cause a stack overflow in runtime.
                 {
-                    let mut fallback = fallback;
-                    loop {
-                        let fb_b = self.the_symbols.get(fallback);
-                        match fb_b.fallback {
-                            None => break,
-                            Some(fb_next) => {
-                                if syms.iter().any(|(_, s)| *s == fb_next) {
-                                    return error_span(
-                                        fb.span(),
-                                        "Fallback directive creates a loop",
-                                    );
-                                    //tested
-                                }
-                                fallback = fb_next;
-                            }
+                    let mut next = Some(fallback);
+                    while let Some(sym) = next {
+                        if syms.iter().any(|(_, s)| *s == sym) {
+                            return error_span(fb.span(), "Fallback directive creates a loop");
+                            //tested
                         }
+                        next = self.the_symbols.get(sym).fallback;
                     }
                 }
 
-- 
2.43.0


From fc203bbebb8c213e00024e0caa8c9bd34fbc8453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:56 +0000
Subject: [PATCH 02/24] fix: choose the type of the offset tables by their
 minimum too

The offsets into the action table can be negative. When the minimum did
not fit in the type chosen for the maximum, the generated code did not
compile.
---
 pomelo-impl/src/parser/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 023a2ef..b338bd9 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -491,6 +491,11 @@ fn minimum_signed_type(max: usize) -> Ident {
     }
 }
 
+//Like minimum_signed_type, but able to hold `min` too, that can be negative
+fn minimum_signed_range_type(min: i32, max: i32) -> Ident {
+    minimum_signed_type(cmp::max(max, -1 - min) as usize)
+}
+
 fn minimum_unsigned_type(max: usize) -> Ident {
     if max < 0x100 {
         parse_quote!(u8)
@@ -2455,7 +2460,7 @@ impl Pomelo {
         src.extend(quote!(const YY_SHIFT_COUNT: i32 = #n as i32;));
         src.extend(quote!(const YY_SHIFT_MIN: i32 = #min_tkn_ofst;));
         src.extend(quote!(const YY_SHIFT_MAX: i32 = #max_tkn_ofst;));
-        let yy_shift_ofst_type = minimum_signed_type(max_tkn_ofst as usize);
+        let yy_shift_ofst_type = minimum_signed_range_type(yy_shift_use_dflt, max_tkn_ofst);
         let yy_shift_ofst = self.states[0..=n]
             .iter()
             .map(|stp| {
@@ -2477,7 +2482,7 @@ impl Pomelo {
         src.extend(quote!(const YY_REDUCE_COUNT: i32 = #n as i32;));
         src.extend(quote!(const YY_REDUCE_MIN: i32 = #min_nt_ofst;));
         src.extend(quote!(const YY_REDUCE_MAX: i32 = #max_nt_ofst;));
-        let yy_reduce_ofst_type = minimum_signed_type(max_nt_ofst as usize);
+        let yy_reduce_ofst_type = minimum_signed_range_type(yy_reduce_use_dflt, max_nt_ofst);
         let yy_reduce_ofst = self.states[0..=n]
             .iter()
             .map(|stp| {
-- 
2.43.0


From 5cd23d335130295807033febe516cf3ebdb0dd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:02 +0000
Subject: [PATCH 03/24] fix: do not use a default reduction where the wildcard
 can be reduced

A token moved to the default action of a state would use the action of
the wildcard instead, if the wildcard has any action in that state, not
only if it is a shift.
---
 pomelo-impl/src/parser/mod.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index b338bd9..7c13b52 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1289,16 +1289,15 @@ impl Pomelo {
 
                 for (iap, ap) in stp.actions.iter().enumerate() {
                     let ap = ap.borrow();
+                    if self.wildcard == Some(ap.look_ahead) {
+                        // Any token without an action would use this action instead of the default
+                        uses_wildcard = true;
+                    }
                     if ignored_actions.contains(&ap.look_ahead) {
                         continue;
                     }
-                    match (&ap.detail, &self.wildcard) {
-                        (Shift(_), Some(w)) => {
-                            if ap.look_ahead == *w {
-                                uses_wildcard = true;
-                            }
-                        }
-                        (Reduce(rp), _) => {
+                    match &ap.detail {
+                        Reduce(rp) => {
                             if self.the_rules.get(rp).lhs_start {
                                 continue;
                             }
-- 
2.43.0


From 0949f7f0d4146703d8c63dddf00b5b9aa1be204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:31 +0000
Subject: [PATCH 04/24] fix: do not require std in the generated code

Only the default stack needs std; with %stack_size the generated code
should compile in a no_std crate.
---
 pomelo-impl/src/parser/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 7c13b52..d105d81 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2658,7 +2658,7 @@ impl Pomelo {
             struct ExpectedTokens #yy_generics_impl #yy_generics_where {
                 stateno: i32,
                 yy_major: i32,
-                _phantom: ::std::marker::PhantomData<Parser #yy_generics>,
+                _phantom: ::core::marker::PhantomData<Parser #yy_generics>,
             }
 
             struct ExpectedToken #yy_generics_impl_token #yy_generics_where_token {
@@ -2671,7 +2671,7 @@ impl Pomelo {
                 type Item = ExpectedToken #yy_generics_token;
 
                 fn next(&mut self) -> Option<Self::Item> {
-                    use std::convert::TryFrom;
+                    use ::core::convert::TryFrom;
                     loop {
                         let yy_major = self.yy_major;
                         let name = *YY_TOKEN_NAMES.get(usize::try_from(yy_major).unwrap())?;
@@ -2728,7 +2728,7 @@ impl Pomelo {
                         let expected = ExpectedTokens {
                             stateno: yy.yystack.last().unwrap().stateno,
                             yy_major: 1,
-                            _phantom: ::std::marker::PhantomData,
+                            _phantom: ::core::marker::PhantomData,
                         };
 
                         if YYERRORSYMBOL != 0 {
-- 
2.43.0


From bc36e2a0dbe63a907a70fb9b9c109156b5fe22ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:54 +0000
Subject: [PATCH 05/24] fix: make the expansion independent of the hash seeds

The rules of the optional symbols and the variants of YYMinorType were
created in the iteration order of a HashMap, so that the same grammar
expanded to different code each time.
---
 pomelo-impl/src/parser/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index d105d81..57a2f34 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1,7 +1,7 @@
 use std::borrow::Cow;
 use std::cell::RefCell;
 use std::cmp::{self, Ordering};
-use std::collections::{BTreeSet, HashMap};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::fmt::{Display, Write};
 use std::hash::{Hash, Hasher};
 
@@ -256,7 +256,7 @@ pub struct Pomelo {
     has_fallback: bool,           //True if any %fallback is seen in the grammar
     default_type: Option<Type>,   //The %default_type
     start: Option<SymbolId>,
-    optional_tokens: HashMap<SymbolId, SymbolSpan>,
+    optional_tokens: BTreeMap<SymbolId, SymbolSpan>,
     extra_token: Option<Type>,
     stack_type: Option<Type>,
     stack_limit: usize,
@@ -549,7 +549,7 @@ impl Pomelo {
             has_fallback: false,
             default_type: None,
             start: None,
-            optional_tokens: HashMap::new(),
+            optional_tokens: BTreeMap::new(),
             extra_token: None,
             stack_type: None,
             stack_limit: 100,
@@ -2215,7 +2215,10 @@ impl Pomelo {
             }
         };
 
-        let minor_types = types.iter().map(|(k, v)| {
+        //A HashMap has no stable order, but the generated code must
+        let mut minor_types = types.iter().collect::<Vec<_>>();
+        minor_types.sort_by_key(|(_, v)| **v);
+        let minor_types = minor_types.into_iter().map(|(k, v)| {
             let ident = Ident::new(&format!("YY{}", v), Span::call_site());
             quote!(#ident(#k))
         });
-- 
2.43.0


From 26d2b2b6b73e27cc63ad793b9bcd7866710f89fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:31 +0000
Subject: [PATCH 06/24] fix: accept an untyped start symbol next to symbols of
 type ()

The value of an untyped start symbol is in YY0, but if another symbol
was declared with type () that one was looked for, and accepting
panicked with 'unexpected root type'.
---
 pomelo-impl/src/parser/mod.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 57a2f34..f1436f2 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2917,8 +2917,13 @@ impl Pomelo {
         }
         yyrules.push(quote!(_ => unreachable!("no rule to apply")));
 
-        let accept_code = match types.get(yyroottype) {
-            Some(n) => {
+        //An untyped start symbol is YY0, even if other symbols have an explicit type `()`
+        let accept_code = match start.dt_num {
+            0 => quote!(
+                yy.yystatus = YYStatus::Accepted(());
+                yy.yystack.clear();
+            ),
+            n => {
                 let yyroot = Ident::new(&format!("YY{}", n), Span::call_site());
                 quote!(
                     if let YYMinorType::#yyroot(root) = yygotominor {
@@ -2929,10 +2934,6 @@ impl Pomelo {
                     }
                 )
             }
-            None => quote!(
-                yy.yystatus = YYStatus::Accepted(());
-                yy.yystack.clear();
-            ),
         };
 
         let yyreduce_fn = quote!(
-- 
2.43.0


From d0ec7359bc8b9bebbc0f3d87a535b61c9b546da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 07/24] fix: remove the reduction of a non-associative conflict

The reduce action was left in the state next to the error, and it was
only ignored if it happened to become the default action.
---
 pomelo-impl/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index f1436f2..686ff08 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1195,7 +1195,7 @@ impl Pomelo {
                 match (precx, precy) {
                     (Some(px), Some(py)) => match precedence_cmp(px, py) {
                         Ordering::Less => (false, SHResolved(x), Reduce(y)),
-                        Ordering::Equal => (false, Error, Reduce(y)),
+                        Ordering::Equal => (false, Error, RDResolved(y)),
                         Ordering::Greater => (false, Shift(x), RDResolved(y)),
                     },
                     _ => (true, Shift(x), SRConflict(y)),
-- 
2.43.0


From 5dc07770b14708e8dab7761e35c8b53bb62f2717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:51 +0000
Subject: [PATCH 08/24] fix: list only acceptable tokens when a non-associative
 token fails

The state where a %nonassoc token is an error could have a default
reduction too, and then every token without an action of its own was
listed in 'expected', even if it could not be accepted.
---
 pomelo-impl/src/parser/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 686ff08..e9f752f 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1243,6 +1243,7 @@ impl Pomelo {
                 let mut nbest = 0;
                 let mut rbest = None;
                 let mut uses_wildcard = false;
+                let mut has_error = false;
                 let stp = self.the_states.get(stp);
 
                 // ignored_actions will be actions that do not participate in the compression.
@@ -1293,6 +1294,11 @@ impl Pomelo {
                         // Any token without an action would use this action instead of the default
                         uses_wildcard = true;
                     }
+                    if let Error = ap.detail {
+                        // An error in this state is detected before any default reduction, and
+                        // then the default is not an action for the expected tokens
+                        has_error = true;
+                    }
                     if ignored_actions.contains(&ap.look_ahead) {
                         continue;
                     }
@@ -1333,9 +1339,9 @@ impl Pomelo {
 
                 /* Do not make a default if the number of rules to default
                  ** is not at least 1 or if the wildcard token is a possible
-                 ** lookahead.
+                 ** lookahead or if a non-associative token is an error.
                  */
-                if nbest < 1 || uses_wildcard {
+                if nbest < 1 || uses_wildcard || has_error {
                     continue;
                 }
                 let rbest = rbest.unwrap();
-- 
2.43.0


From 351ce2bf6bd85c9e4116a85a527736b4db907ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:05 +0000
Subject: [PATCH 09/24] fix: give optional symbols the type their symbol really
 has

The rules created for 'X?' ignored the type that X gets from
%default_type or from being a token class, so they did not compile. And
if X had no type but it was the fallback of a typed token, they panicked
at run time.
---
 pomelo-impl/src/parser/mod.rs | 36 +++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index e9f752f..cb8461e 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -656,15 +656,16 @@ impl Pomelo {
         //add two new rules:
         //  _n ::= T { None }
         //  _n ::= T(_A) { Some(_A) }
+        //If T has no type, then ty is () and the last one is:
+        //  _n ::= T { Some(()) }
         //We consume the optional_tokens map, it is no longer needed
         let optional_tokens = std::mem::take(&mut self.optional_tokens);
         for (sym_r, SymbolSpan(sym_l, span)) in optional_tokens {
-            let dt = self
-                .the_symbols
-                .get(sym_r)
-                .data_type
-                .clone()
-                .unwrap_or_else(|| parse_quote!(()));
+            let dt = self.effective_data_type(sym_r);
+            let (dt, alias, code) = match dt {
+                Some(dt) => (dt, Some(parse_quote!(_A)), parse_quote!({ Some(_A) })),
+                None => (parse_quote!(()), None, parse_quote!({ Some(()) })),
+            };
             self.the_symbols.get_mut(sym_l).data_type = Some(parse_quote!(Option<#dt>));
             let sym_l = SymbolSpan(sym_l, span);
 
@@ -676,14 +677,21 @@ impl Pomelo {
                 None,
             );
 
-            let rhs = SymbolAlias(sym_r, span, Some(parse_quote!(_A)));
-            self.create_rule(
-                span,
-                sym_l,
-                vec![rhs],
-                Some(parse_quote!({ Some(_A) })),
-                None,
-            );
+            let rhs = SymbolAlias(sym_r, span, alias);
+            self.create_rule(span, sym_l, vec![rhs], Some(code), None);
+        }
+    }
+
+    //The type of the values of a symbol, when it is not its own: a MultiTerminal has the type of
+    //its first child, and the %default_type is used by any other symbol but the wildcard.
+    fn effective_data_type(&self, symbol: SymbolId) -> Option<Type> {
+        if self.wildcard == Some(symbol) {
+            return None;
+        }
+        let sp = self.the_symbols.get(symbol);
+        match &sp.typ {
+            MultiTerminal(ss) => self.effective_data_type(*ss.first()?),
+            _ => sp.data_type.clone().or_else(|| self.default_type.clone()),
         }
     }
 
-- 
2.43.0


From aa5ee1050e9557dd7811df8ffc91213e321640c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:13 +0000
Subject: [PATCH 10/24] fix: do not ignore the ? after a compound token

'A|B?' was parsed as a non optional 'A|B'.
---
 pomelo-impl/src/parser/mod.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index cb8461e..5aebb49 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2001,22 +2001,7 @@ impl Pomelo {
                                     "Symbol must start with uppercase or lowercase letter",
                                 ); //tested
                             };
-                            if optional {
-                                let sym_r = self.symbol_new_t(&tok, nst);
-                                if let Some(sym_l) = self.optional_tokens.get(&sym_r) {
-                                    sym_l.clone()
-                                } else {
-                                    let sym_l = self.symbol_new_s(
-                                        &format!("_{}", self.optional_tokens.len()),
-                                        NewSymbolType::NonTerminal,
-                                    );
-                                    let sym_l = SymbolSpan(sym_l, tok.span());
-                                    self.optional_tokens.insert(sym_r, sym_l.clone());
-                                    sym_l
-                                }
-                            } else {
-                                self.symbol_new_t_span(&tok, nst)
-                            }
+                            self.symbol_new_t_span(&tok, nst)
                         } else {
                             let mt = self.symbol_new_s("", NewSymbolType::MultiTerminal);
                             let mut ss = Vec::new();
@@ -2037,6 +2022,19 @@ impl Pomelo {
                             }
                             SymbolSpan(mt, span)
                         };
+                        let SymbolSpan(tok, span) = if !optional {
+                            SymbolSpan(tok, span)
+                        } else if let Some(sym_l) = self.optional_tokens.get(&tok) {
+                            sym_l.clone()
+                        } else {
+                            let sym_l = self.symbol_new_s(
+                                &format!("_{}", self.optional_tokens.len()),
+                                NewSymbolType::NonTerminal,
+                            );
+                            let sym_l = SymbolSpan(sym_l, span);
+                            self.optional_tokens.insert(tok, sym_l.clone());
+                            sym_l
+                        };
                         Ok(SymbolAlias(tok, span, alias))
                     })
                     .collect::<syn::Result<Vec<_>>>()?;
-- 
2.43.0


From d15ef57ca8a5709f0bcb0d640ebe8687acf0bda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 11/24] fix: never let two states share an offset into the
 action table

When no hole was found for the actions of a state they were appended at
the end of the table, even if the resulting offset was the one of other
state. Then both states used the actions of each other: for example, in
's ::= a; s ::= b; s ::= s2 X; a ::= A; b ::= B; s2 ::= A B;' the input
'B X' was accepted.
---
 pomelo-impl/src/parser/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 5aebb49..b5efbf8 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -345,7 +345,6 @@ impl ActTab {
         //at2.a_lookahead is sorted by lookahead
         let min_lookahead = at2.a_lookahead.first().unwrap().lookahead;
         let min_action = at2.a_lookahead.first().unwrap().action;
-        let max_lookahead = at2.a_lookahead.last().unwrap().lookahead;
 
         /* Scan the existing action table looking for an offset that is a
          ** duplicate of the current transaction set.  Fall out of the loop
@@ -411,10 +410,12 @@ impl ActTab {
             None => {
                 /* Look for holes in the aAction[] table that fit the current
                  ** aLookahead[] transaction.  Leave i set to the offset of the hole.
-                 ** If no holes are found, i is left at self.n_action, which means the
-                 ** transaction will be appended. */
-                let mut r = self.a_action.len();
-                'ia: for i in 0..self.a_action.len() + max_lookahead {
+                 ** If no holes are found, the transaction is appended. But not necessarily
+                 ** just after the last action, because any offset used by other transaction
+                 ** has to be skipped. The offset of any existing action is less than
+                 ** self.a_action.len(), so the last i is always good. */
+                let mut r = 0;
+                'ia: for i in 0..=self.a_action.len() + min_lookahead {
                     for jla in &at2.a_lookahead {
                         let k = jla.lookahead - min_lookahead + i;
                         if let Some(Some(_)) = self.a_action.get(k) {
-- 
2.43.0


From 9ad353f10218b3d899007b99ed831a4beedf9b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:00 +0000
Subject: [PATCH 12/24] fix: resolve the token classes inside of other classes
 and compounds

The name of a token class was taken as a token of its own when it was a
member of other class or of a compound, so its tokens were not
recognized there. A class that contains itself is now an error, instead
of a panic of the macro.
---
 pomelo-impl/src/parser/mod.rs | 37 +++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index b5efbf8..51cd31f 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -603,6 +603,8 @@ impl Pomelo {
     }
 
     fn prepare(&mut self) {
+        self.flatten_multi_terminals();
+
         //First there are all the Terminals, the first one is $
         //Then the NonTerminals, the last one is {default}
         //And finally the MultiTerminals
@@ -683,6 +685,38 @@ impl Pomelo {
         }
     }
 
+    //A MultiTerminal can be built with others: leave only the terminals, and each of them once.
+    fn flatten_multi_terminals(&mut self) {
+        fn flatten(the_symbols: &VecRef<Symbol>, symbol: SymbolId, tokens: &mut Vec<SymbolId>) {
+            match &the_symbols.get(symbol).typ {
+                MultiTerminal(sub_sym) => {
+                    for ss in sub_sym {
+                        flatten(the_symbols, *ss, tokens);
+                    }
+                }
+                _ if tokens.contains(&symbol) => {}
+                _ => tokens.push(symbol),
+            }
+        }
+
+        for s in &self.symbols {
+            if matches!(self.the_symbols.get(s).typ, MultiTerminal(_)) {
+                let mut tokens = Vec::new();
+                flatten(&self.the_symbols, *s, &mut tokens);
+                self.the_symbols.get_mut(s).typ = MultiTerminal(tokens);
+            }
+        }
+    }
+
+    //True if `symbol` is `other` or a MultiTerminal that contains it
+    fn symbol_contains(&self, symbol: SymbolId, other: SymbolId) -> bool {
+        symbol == other
+            || match &self.the_symbols.get(symbol).typ {
+                MultiTerminal(sub_sym) => sub_sym.iter().any(|ss| self.symbol_contains(*ss, other)),
+                _ => false,
+            }
+    }
+
     //The type of the values of a symbol, when it is not its own: a MultiTerminal has the type of
     //its first child, and the %default_type is used by any other symbol but the wildcard.
     fn effective_data_type(&self, symbol: SymbolId) -> Option<Type> {
@@ -1939,6 +1973,9 @@ impl Pomelo {
                         //tested
                     }
                     let sp = self.symbol_new_t(&id, NewSymbolType::Terminal);
+                    if self.symbol_contains(sp, tk) {
+                        return error_span(id.span(), "token_class directive creates a loop");
+                    }
                     if let MultiTerminal(sub_sym) = &mut self.the_symbols.get_mut(tk).typ {
                         sub_sym.push(sp);
                     } else {
-- 
2.43.0


From f9be27c6041277455114f81a32478040fbe84ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 13/24] fix: report an empty token_class instead of panicking

---
 pomelo-impl/src/parser/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 51cd31f..3c171a6 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1966,6 +1966,9 @@ impl Pomelo {
                     return error_span(tk.span(), "token_class must be a token");
                     //tested
                 }
+                if ids.is_empty() {
+                    return error_span(tk.span(), "token_class must have some token");
+                }
                 let tk = self.symbol_new_t(&tk, NewSymbolType::MultiTerminal);
                 for id in ids {
                     if !is_terminal_ident(&id) {
-- 
2.43.0


From e902c0eaa8a83923baeadf115c9ecbe7e0566a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 14/24] fix: bind the alias of an untyped token used as a
 fallback

'%fallback F A;' with a typed A and an untyped F is allowed, but an
alias on F panicked with 'impossible pattern' if the actual token was A.
Also check the first token of a compound, that has no type if it is the
wildcard.
---
 pomelo-impl/src/parser/mod.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 3c171a6..e0d0596 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -3029,9 +3029,15 @@ impl Pomelo {
         for (i, SymbolAlias(r, _, alias)) in rp.rhs.iter().enumerate() {
             let r = self.the_symbols.get(r);
             let yypi = Ident::new(&format!("yyp{}", i), Span::call_site());
-            yymatch.push(quote!(#yypi.minor));
+            if r.dt_num == 0 && alias.is_some() {
+                //An untyped token can be the fallback of a typed one, then the value in the stack
+                //is that of the original token
+                yymatch.push(quote!(()));
+            } else {
+                yymatch.push(quote!(#yypi.minor));
+            }
             if let (Some(alias), MultiTerminal(ss)) = (alias, &r.typ) {
-                for or in &ss[1..] {
+                for or in ss {
                     if r.dt_num != self.the_symbols.get(or).dt_num {
                         return error_span(
                             alias.span(),
@@ -3044,17 +3050,19 @@ impl Pomelo {
 
         let mut yypattern = Vec::new();
         for SymbolAlias(r, _, alias) in &rp.rhs {
-            let yydt = Ident::new(
-                &format!("YY{}", self.the_symbols.get(r).dt_num),
-                Span::call_site(),
-            );
+            let dt_num = self.the_symbols.get(r).dt_num;
+            let yydt = Ident::new(&format!("YY{}", dt_num), Span::call_site());
             match alias {
                 Some(alias) => {
                     if Some(r) == self.wildcard.as_ref() {
                         return error_span(alias.span(), "Wildcard token must not have an alias");
                         //tested
                     }
-                    yypattern.push(quote!(YYMinorType::#yydt(#alias)))
+                    if dt_num == 0 {
+                        yypattern.push(quote!(#alias))
+                    } else {
+                        yypattern.push(quote!(YYMinorType::#yydt(#alias)))
+                    }
                 }
                 None => yypattern.push(quote!(_)),
             }
-- 
2.43.0


From e3bce9510796dc8531e0741c508681a479ee9abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:50 +0000
Subject: [PATCH 15/24] fix: allow the same token in several compounds of a
 state

Compounds were compared as symbols to compute the shifts of a state, so
that 's ::= A|B C; s ::= A|B D E;' was rejected with a shift/shift
conflict, although the same grammar without compounds is not ambiguous.
---
 pomelo-impl/src/parser/mod.rs | 106 +++++++++++++++-------------------
 1 file changed, 45 insertions(+), 61 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index e0d0596..9a388c4 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -981,53 +981,50 @@ impl Pomelo {
      ** state is any state which can be reached by a shift action.
      */
     fn build_shifts(&mut self, state: StateId) -> syn::Result<()> {
-        /* Each configuration becomes complete after it contibutes to a successor
-         ** state.  Initially, all configurations are incomplete */
+        /* For every symbol that follows the dot in any configuration of the state "stp", gather
+         ** those configurations. The same token can be in several compounds, so a compound is
+         ** handled as each of its tokens. */
+        let mut shifts: Vec<(SymbolId, Vec<ConfigId>)> = Vec::new();
+        for cfp_ in &self.the_states.get(state).configs {
+            let cfp = self.the_configs.get(cfp_);
+            let rule = self.the_rules.get(cfp.rule);
+            let Some(SymbolAlias(sp, ..)) = rule.rhs.get(cfp.dot) else {
+                continue; /* Can't shift this config */
+            };
+            let bsp = self.the_symbols.get(sp);
+            let symbols = match &bsp.typ {
+                MultiTerminal(sub_sym) => sub_sym.as_slice(),
+                _ => std::slice::from_ref(sp),
+            };
+            for ss in symbols {
+                match shifts.iter_mut().find(|(s, _)| s == ss) {
+                    Some((_, cfgs)) => cfgs.push(*cfp_),
+                    None => shifts.push((*ss, vec![*cfp_])),
+                }
+            }
+        }
 
-        for cfp in &self.the_states.get(state).configs {
-            self.the_configs.get_mut(cfp).status = CfgStatus::Incomplete;
+        /* All the symbols with the same configurations go to the same successor state */
+        let mut successors: Vec<(Vec<SymbolId>, Vec<ConfigId>)> = Vec::new();
+        for (sp, cfgs) in shifts {
+            match successors.iter_mut().find(|(_, c)| *c == cfgs) {
+                Some((symbols, _)) => symbols.push(sp),
+                None => successors.push((vec![sp], cfgs)),
+            }
         }
+
         let mut aps = Vec::new();
-        /* Loop through all configurations of the state "stp" */
-        let configs = self.the_states.get(state).configs.clone();
-        for (icfp, cfp) in configs.iter().enumerate() {
-            let cfp = self.the_configs.get(cfp);
-            if let CfgStatus::Complete = cfp.status {
-                continue;
-            } /* Already used by inner loop */
-            if cfp.dot >= self.the_rules.get(cfp.rule).rhs.len() {
-                continue;
-            } /* Can't shift this config */
-            let SymbolAlias(sp, ..) = self.the_rules.get(cfp.rule).rhs[cfp.dot]; /* Symbol after the dot */
+        for (symbols, cfgs) in successors {
+            /* Add the same configurations to the basis set under construction but with
+             ** the dot shifted one symbol to the right. */
             let mut basis = Vec::new();
-            drop(cfp);
-
-            /* For every configuration in the state "stp" which has the symbol "sp"
-             ** following its dot, add the same configuration to the basis set under
-             ** construction but with the dot shifted one symbol to the right. */
-            let state_configs = self.the_states.get(state).configs[icfp..].to_owned();
-            for bcfp_ in state_configs {
-                let rule;
-                let dot;
-                {
-                    let bcfp = self.the_configs.get(bcfp_);
-                    if let CfgStatus::Complete = bcfp.status {
-                        continue;
-                    } /* Already used */
-                    if bcfp.dot >= self.the_rules.get(bcfp.rule).rhs.len() {
-                        continue;
-                    } /* Can't shift this one */
-                    let SymbolAlias(bsp, ..) = self.the_rules.get(bcfp.rule).rhs[bcfp.dot]; /* Get symbol after dot */
-                    if bsp != sp {
-                        continue;
-                    } /* Must be same as for "cfp" */
-                    rule = bcfp.rule;
-                    dot = bcfp.dot + 1;
-                }
+            for bcfp in cfgs {
+                let (rule, dot) = {
+                    let bcfp = self.the_configs.get(bcfp);
+                    (bcfp.rule, bcfp.dot + 1)
+                };
                 let newcfg = self.add_config(&mut basis, rule, dot);
-
-                self.the_configs.get_mut(bcfp_).status = CfgStatus::Complete; /* Mark this config as used */
-                self.the_configs.get_mut(newcfg).bplp.push(bcfp_);
+                self.the_configs.get_mut(newcfg).bplp.push(bcfp);
             }
 
             /* Get a pointer to the state described by the basis configuration set
@@ -1035,25 +1032,12 @@ impl Pomelo {
             let newstp = self.get_state(basis.clone(), basis)?;
 
             /* The state "newstp" is reached from the state "stp" by a shift action
-             ** on the symbol "sp" */
-            let bsp = self.the_symbols.get(sp);
-            match &bsp.typ {
-                MultiTerminal(sub_sym) => {
-                    for ss in sub_sym {
-                        let detail = ActionDetail::Shift(newstp);
-                        aps.push(RefCell::new(Action {
-                            look_ahead: *ss,
-                            detail,
-                        }));
-                    }
-                }
-                _ => {
-                    let detail = ActionDetail::Shift(newstp);
-                    aps.push(RefCell::new(Action {
-                        look_ahead: sp,
-                        detail,
-                    }));
-                }
+             ** on any of the symbols */
+            for look_ahead in symbols {
+                aps.push(RefCell::new(Action {
+                    look_ahead,
+                    detail: ActionDetail::Shift(newstp),
+                }));
             }
         }
         self.the_states.get_mut(state).actions.extend(aps);
-- 
2.43.0


From 44f6f39c2ed3849121532d17e5658128f393b0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:48 +0000
Subject: [PATCH 16/24] fix: forward the value of a rule without code for any
 typed symbol

A rule without code looked only at the types declared with %type, so it
did not compile if the type came from %default_type or from a token
class.
---
 pomelo-impl/src/parser/mod.rs | 40 +++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 9a388c4..df6517f 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -779,25 +779,37 @@ impl Pomelo {
     fn normalize_rules(&mut self) -> syn::Result<()> {
         for rp in &self.rules {
             let mut rp = self.the_rules.get_mut(rp);
-            if self.the_symbols.get(rp.lhs.0).data_type.is_some() && rp.code.is_none() {
+            if self.effective_data_type(rp.lhs.0).is_some() && rp.code.is_none() {
                 if rp.rhs.iter().all(|SymbolAlias(_, _, a)| a.is_none()) {
-                    let mut rtyped = rp
-                        .rhs
-                        .iter_mut()
-                        .filter(|SymbolAlias(symbol, _, _)| {
-                            self.the_symbols.get(symbol).data_type.is_some()
-                        })
-                        .collect::<Vec<_>>();
-                    if let [SymbolAlias(_, _, alias)] = &mut rtyped[..] {
-                        *alias = Some(parse_quote!(_A));
+                    //Prefer a symbol with a type of its own to one of the default type or to a
+                    //compound
+                    let typed = |effective: bool| {
+                        let typed = rp.rhs.iter().enumerate().filter(|(_, SymbolAlias(s, ..))| {
+                            if effective {
+                                self.effective_data_type(*s).is_some()
+                            } else {
+                                self.the_symbols.get(s).data_type.is_some()
+                            }
+                        });
+                        typed.map(|(i, _)| i).collect::<Vec<_>>()
+                    };
+                    let mut rtyped = typed(false);
+                    if rtyped.is_empty() {
+                        rtyped = typed(true);
+                    }
+                    if let [i] = rtyped[..] {
+                        rp.rhs[i].2 = Some(parse_quote!(_A));
                         rp.code = Some(parse_quote!({ _A }));
                         continue;
                     }
                 }
-                return error_span(
-                    rp.lhs.1,
-                    "This rule has a typed LHS but no code to assign it",
-                ); //tested
+                //If the type is just the default one, it may well be ()
+                if self.the_symbols.get(rp.lhs.0).data_type.is_some() {
+                    return error_span(
+                        rp.lhs.1,
+                        "This rule has a typed LHS but no code to assign it",
+                    ); //tested
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 0057b7ca86717ed588aba5dc46c47a85572b9257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:10 +0000
Subject: [PATCH 17/24] fix: reject a duplicated %stack_size or %module

The last one was silently used, except if the first %stack_size had a
stack type.
---
 pomelo-impl/src/decl.rs       |  3 ++-
 pomelo-impl/src/lib.rs        |  6 ++++--
 pomelo-impl/src/parser/mod.rs | 19 +++++++++++++++----
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/pomelo-impl/src/decl.rs b/pomelo-impl/src/decl.rs
index 6b64df3..307e3e5 100644
--- a/pomelo-impl/src/decl.rs
+++ b/pomelo-impl/src/decl.rs
@@ -1,3 +1,4 @@
+use proc_macro2::Span;
 use syn::{Attribute, Block, Ident, Item, ItemEnum, ItemStruct, Pat, Type};
 
 #[derive(Debug, Copy, Clone)]
@@ -25,7 +26,7 @@ pub enum Decl {
     TokenClass(Ident, Vec<Ident>),
     Token(ItemEnum),
     ExtraToken(Type),
-    StackSize(usize, Option<Type>),
+    StackSize(Span, usize, Option<Type>),
     Parser(ItemStruct),
     Verbose,
     Rule {
diff --git a/pomelo-impl/src/lib.rs b/pomelo-impl/src/lib.rs
index 0da0d20..f954fd1 100644
--- a/pomelo-impl/src/lib.rs
+++ b/pomelo-impl/src/lib.rs
@@ -225,14 +225,16 @@ impl Parse for Decl {
             } else if lookahead.peek(kw::stack_size) {
                 // %stack_size limit [type];
                 input.parse::<kw::stack_size>()?;
-                let limit = input.parse::<LitInt>()?.base10_parse::<usize>()?;
+                let limit = input.parse::<LitInt>()?;
+                let span = limit.span();
+                let limit = limit.base10_parse::<usize>()?;
                 let typ = if input.peek(Token![;]) {
                     None
                 } else {
                     Some(input.parse()?)
                 };
                 input.parse::<Token![;]>()?;
-                Ok(Decl::StackSize(limit, typ))
+                Ok(Decl::StackSize(span, limit, typ))
             } else if lookahead.peek(kw::verbose) {
                 // %verbose;
                 input.parse::<kw::verbose>()?;
diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index df6517f..e61b350 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -265,6 +265,8 @@ pub struct Pomelo {
 
 struct ParserData {
     precedence: i32,
+    module: bool,     //True if there is a %module
+    stack_size: bool, //True if there is a %stack_size
 }
 
 #[derive(Debug)]
@@ -560,7 +562,11 @@ impl Pomelo {
         pomelo.symbol_new("$", NewSymbolType::Terminal);
         pomelo.error_symbol = pomelo.symbol_new("error", NewSymbolType::NonTerminal);
 
-        let mut pdata = ParserData { precedence: 0 };
+        let mut pdata = ParserData {
+            precedence: 0,
+            module: false,
+            stack_size: false,
+        };
 
         for decl in decls {
             pomelo.parse_one_decl(&mut pdata, decl)?;
@@ -1803,6 +1809,10 @@ impl Pomelo {
         //println!("PARSE {:?}", decl);
         match decl {
             Decl::Module(id) => {
+                if pdt.module {
+                    return error_span(id.span(), "Module already defined");
+                }
+                pdt.module = true;
                 self.module = id;
             }
             Decl::Include(code) => {
@@ -2001,10 +2011,11 @@ impl Pomelo {
                 }
                 self.extra_token = Some(ty);
             }
-            Decl::StackSize(limit, ty) => {
-                if self.stack_type.is_some() {
-                    return error_span(ty.span(), "Stack size already defined");
+            Decl::StackSize(span, limit, ty) => {
+                if pdt.stack_size {
+                    return error_span(span, "Stack size already defined");
                 }
+                pdt.stack_size = true;
                 self.stack_limit = limit;
                 self.stack_type = ty;
             }
-- 
2.43.0


From 69f15c7f88767183499d55fadb40145fe1afd222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:17 +0000
Subject: [PATCH 18/24] fix: keep the attributes of a token with several %type

A %type without a type, just to write attributes, lost them if followed
by other %type for the same token, and was rejected if preceded by it.
---
 pomelo-impl/src/parser/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index e61b350..1e30789 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1855,12 +1855,14 @@ impl Pomelo {
                 };
                 let sp = self.symbol_new_t(&id, nst);
                 let mut sp = self.the_symbols.get_mut(sp);
-                if sp.data_type.is_some() {
-                    return error_span(id.span(), "Symbol type already defined");
-                    //tested
+                if let Some(ty) = ty {
+                    if sp.data_type.is_some() {
+                        return error_span(id.span(), "Symbol type already defined");
+                        //tested
+                    }
+                    sp.data_type = Some(ty);
                 }
-                sp.data_type = ty;
-                sp.attributes = attrs;
+                sp.attributes.extend(attrs);
             }
             Decl::Assoc(a, ids) => {
                 pdt.precedence += 1;
-- 
2.43.0


From 927000b4c24de961e02152750db061064648c345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 19/24] fix: report reduce-reduce conflicts between rules of
 the same precedence

The associativity of the tokens was used to choose one of the rules
silently, but it has no meaning for a reduce-reduce conflict.
---
 pomelo-impl/src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 1e30789..7e2bda8 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1251,7 +1251,8 @@ impl Pomelo {
                 let precy = self.the_rules.get(y).precedence;
 
                 match (precx, precy) {
-                    (Some(px), Some(py)) => match precedence_cmp(px, py) {
+                    // The associativity means nothing here, only the level is compared
+                    (Some(px), Some(py)) => match px.0.cmp(&py.0) {
                         Ordering::Less => (false, RDResolved(x), Reduce(y)),
                         Ordering::Equal => (true, Reduce(x), RRConflict(y)),
                         Ordering::Greater => (false, Reduce(x), RDResolved(y)),
-- 
2.43.0


From 0904035bcd02b20adb21e750607064fe43272881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:42 +0000
Subject: [PATCH 20/24] fix: compare all the rules with a non-associative token

Once a token was turned into an error, the other rules that can be
reduced with that token were not compared with it: one with a lower
precedence, or with none at all, remained in the state.
---
 pomelo-impl/src/parser/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 7e2bda8..0cf019d 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1246,6 +1246,19 @@ impl Pomelo {
                     _ => (true, Shift(x), SRConflict(y)),
                 }
             }
+            /* The token is non-associative to a previous rule, but there are more of them */
+            (Error, Reduce(y)) => {
+                let precx = self.the_symbols.get(apx.look_ahead).precedence;
+                let precy = self.the_rules.get(y).precedence;
+
+                match (precx, precy) {
+                    (Some(px), Some(py)) => match precedence_cmp(px, py) {
+                        Ordering::Less => (false, NotUsed, Reduce(y)),
+                        Ordering::Equal | Ordering::Greater => (false, Error, RDResolved(y)),
+                    },
+                    _ => (true, Error, SRConflict(y)),
+                }
+            }
             (Reduce(x), Reduce(y)) => {
                 let precx = self.the_rules.get(x).precedence;
                 let precy = self.the_rules.get(y).precedence;
-- 
2.43.0


From ff08f17d0be78b4b7665200b7cb61a35845b03c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:57 +0000
Subject: [PATCH 21/24] fix: reject refutable patterns in aliases

---
 pomelo-impl/src/parser/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 0cf019d..c68b11f 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -3072,7 +3072,8 @@ impl Pomelo {
         }
 
         let mut yypattern = Vec::new();
-        for SymbolAlias(r, _, alias) in &rp.rhs {
+        let mut yylet = Vec::new();
+        for (i, SymbolAlias(r, _, alias)) in rp.rhs.iter().enumerate() {
             let dt_num = self.the_symbols.get(r).dt_num;
             let yydt = Ident::new(&format!("YY{}", dt_num), Span::call_site());
             match alias {
@@ -3081,11 +3082,17 @@ impl Pomelo {
                         return error_span(alias.span(), "Wildcard token must not have an alias");
                         //tested
                     }
+                    //Bind the pattern with a `let`, so that the compiler checks that it is irrefutable
+                    let yyvi = Ident::new(&format!("yyv{}", i), Span::call_site());
                     if dt_num == 0 {
-                        yypattern.push(quote!(#alias))
+                        yypattern.push(quote!(#yyvi))
                     } else {
-                        yypattern.push(quote!(YYMinorType::#yydt(#alias)))
+                        yypattern.push(quote!(YYMinorType::#yydt(#yyvi)))
                     }
+                    yylet.push(match alias {
+                        Pat::Or(_) => quote!(let (#alias) = #yyvi;),
+                        _ => quote!(let #alias = #yyvi;),
+                    });
                 }
                 None => yypattern.push(quote!(_)),
             }
@@ -3094,7 +3101,7 @@ impl Pomelo {
         let rule_code = rp.code.as_ref();
         code.extend(quote!(
             let yyres : #yyrestype = match (#(#yymatch),*) {
-                (#(#yypattern),*) => { #rule_code }
+                (#(#yypattern),*) => { #(#yylet)* #rule_code }
                 _ => unreachable!("impossible pattern")
             };
         ));
-- 
2.43.0


From b36d2eaa595f0820dbd2c1b2edd584c06c4b3fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:06 +0000
Subject: [PATCH 22/24] fix: locate the type errors of the rules without code

---
 pomelo-impl/src/parser/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index c68b11f..cbbb9dc 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -804,8 +804,10 @@ impl Pomelo {
                         rtyped = typed(true);
                     }
                     if let [i] = rtyped[..] {
-                        rp.rhs[i].2 = Some(parse_quote!(_A));
-                        rp.code = Some(parse_quote!({ _A }));
+                        //If the types are not the same, the error will be in the symbol
+                        let span = rp.rhs[i].1;
+                        rp.rhs[i].2 = Some(parse_quote_spanned!(span=> _A));
+                        rp.code = Some(parse_quote_spanned!(span=> { _A }));
                         continue;
                     }
                 }
@@ -816,6 +818,9 @@ impl Pomelo {
                         "This rule has a typed LHS but no code to assign it",
                     ); //tested
                 }
+                //and if it is not, the error will be in the LHS
+                let span = rp.lhs.1;
+                rp.code = Some(parse_quote_spanned!(span=> {}));
             }
         }
         Ok(())
-- 
2.43.0


From db3e1e13ce74c1423345828de0aff7b42a56e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:06 +0000
Subject: [PATCH 23/24] fix: reject a %token or %parser with another name

---
 pomelo-impl/src/parser/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index cbbb9dc..1163f94 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2017,6 +2017,9 @@ impl Pomelo {
                 if self.token_enum.is_some() {
                     return error_span(e.span(), "token enum already defined"); //tested
                 }
+                if e.ident != "Token" {
+                    return error_span(e.ident.span(), "The token enum must be named Token");
+                }
                 self.token_enum = Some(e);
             }
             Decl::Parser(e) => {
@@ -2024,6 +2027,9 @@ impl Pomelo {
                     return error_span(e.span(), "parser struct already defined");
                     //tested
                 }
+                if e.ident != "Parser" {
+                    return error_span(e.ident.span(), "The parser struct must be named Parser");
+                }
                 self.parser_struct = Some(e);
             }
             Decl::ExtraToken(ty) => {
-- 
2.43.0


From 039b7280ad81cfac34f1737fba1867f0611b8017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:38 +0000
Subject: [PATCH 24/24] fix: accept ref mut aliases again, and reject a
 repeated alias

An alias is bound with a let, so that a refutable pattern is an error, but that made
`ref mut` aliases fail to compile, and a name used in two aliases of a rule shadow the first.
---
 pomelo-impl/src/parser/mod.rs | 39 +++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 1163f94..da688ff 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -513,6 +513,29 @@ fn error<T, M: Display>(msg: M) -> syn::Result<T> {
     Err(syn::Error::new(Span::call_site(), msg))
 }
 
+//The names of the variables bound by a pattern
+fn pattern_names<'a>(pat: &'a Pat, names: &mut Vec<&'a Ident>) {
+    match pat {
+        Pat::Ident(p) => {
+            //It could also be a constant or a unit struct
+            if !p.ident.to_string().starts_with(char::is_uppercase) {
+                names.push(&p.ident);
+            }
+            if let Some((_, p)) = &p.subpat {
+                pattern_names(p, names);
+            }
+        }
+        Pat::Or(p) => p.cases.iter().for_each(|p| pattern_names(p, names)),
+        Pat::Paren(p) => pattern_names(&p.pat, names),
+        Pat::Reference(p) => pattern_names(&p.pat, names),
+        Pat::Slice(p) => p.elems.iter().for_each(|p| pattern_names(p, names)),
+        Pat::Struct(p) => p.fields.iter().for_each(|f| pattern_names(&f.pat, names)),
+        Pat::Tuple(p) => p.elems.iter().for_each(|p| pattern_names(p, names)),
+        Pat::TupleStruct(p) => p.elems.iter().for_each(|p| pattern_names(p, names)),
+        _ => {}
+    }
+}
+
 fn error_span<T>(span: Span, msg: &'static str) -> syn::Result<T> {
     Err(syn::Error::new(span, msg))
 }
@@ -3084,6 +3107,7 @@ impl Pomelo {
 
         let mut yypattern = Vec::new();
         let mut yylet = Vec::new();
+        let mut yynames: Vec<&Ident> = Vec::new();
         for (i, SymbolAlias(r, _, alias)) in rp.rhs.iter().enumerate() {
             let dt_num = self.the_symbols.get(r).dt_num;
             let yydt = Ident::new(&format!("YY{}", dt_num), Span::call_site());
@@ -3100,9 +3124,20 @@ impl Pomelo {
                     } else {
                         yypattern.push(quote!(YYMinorType::#yydt(#yyvi)))
                     }
+                    //Each alias has its own `let`, so a repeated name would just shadow the first one
+                    let mut names = Vec::new();
+                    pattern_names(alias, &mut names);
+                    if let Some(name) = names.iter().find(|&n| yynames.contains(n)) {
+                        return error_span(
+                            name.span(),
+                            "Identifier is bound more than once in the aliases of the rule",
+                        );
+                    }
+                    yynames.append(&mut names);
+                    //The braces are for the `ref mut` patterns
                     yylet.push(match alias {
-                        Pat::Or(_) => quote!(let (#alias) = #yyvi;),
-                        _ => quote!(let #alias = #yyvi;),
+                        Pat::Or(_) => quote!(let (#alias) = { #yyvi };),
+                        _ => quote!(let #alias = { #yyvi };),
                     });
                 }
                 None => yypattern.push(quote!(_)),
-- 
2.43.0

