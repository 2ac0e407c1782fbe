From 363ab2481f31ccc0655a5f8d85a9e92fc192c5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:48 +0000
Subject: [PATCH 01/23] hook: cfg(lang_pt_verif) constructor for CacheKey

---
 src/cache.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cache.rs b/src/cache.rs
index 38b91a3..13afc24 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -140,3 +140,11 @@ impl<TToken> Cache<usize, TToken> {
         ParseError::new(pointer, error_message)
     }
 }
+
+#[cfg(lang_pt_verif)]
+impl CacheKey {
+    /// A key with a chosen identity, so that a test driver can build grammars repeatedly.
+    pub fn verif_new(key: usize) -> Self {
+        CacheKey(key)
+    }
+}
-- 
2.43.0


From febfcbbeb6c7d2c4958148f0c6f225f8ade8d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 02/23] fix: separated list stops when neither separator nor
 symbol advances

---
 src/production/wrappers/separated_list.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index ace2f80..66faa7f 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -38,7 +38,7 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> Separ
     }
 
     fn consume<
-        T: Copy,
+        T: Copy + PartialEq,
         TCache: Copy + Default + Eq + Hash + Ord,
         P: Fn(T, &mut Cache<TCache, TP::Node>) -> ParsedResult<T, TP::Node>,
         S: Fn(T, &mut Cache<TCache, TP::Node>) -> ParsedResult<T, TP::Node>,
@@ -60,6 +60,10 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> Separ
                         Ok(next_success_data) => {
                             children.extend(separator_success_data.children);
                             children.extend(next_success_data.children);
+                            if next_success_data.consumed_index == moved_ptr {
+                                // Neither the separator nor the production advanced.
+                                break Ok(SuccessData::new(moved_ptr, children));
+                            }
                             moved_ptr = next_success_data.consumed_index;
                         }
                         Err(err) => {
-- 
2.43.0


From 1b020836367fce0bd07427604ef75371e8439e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:22 +0000
Subject: [PATCH 03/23] fix: print the optional trailing separator for
 inclusive separated lists

---
 src/production/wrappers/separated_list.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index 66faa7f..4a1d19a 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -122,7 +122,7 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> Displ
                     p = self.get_production(),
                     s = self.get_separator()
                 )?;
-                if !self.inclusive {
+                if self.inclusive {
                     write!(f, " ({})?", self.get_separator())?;
                 }
                 Ok(())
@@ -175,8 +175,8 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> IProd
                         s = self.get_separator()
                     )?;
 
-                    if !self.inclusive {
-                        writeln!(writer, " ({})?", self.get_separator()).unwrap();
+                    if self.inclusive {
+                        writeln!(writer, " ({})?", self.get_separator())?;
                     } else {
                         writeln!(writer, "")?;
                     }
-- 
2.43.0


From f374d59da6bec411b3d38f6157c44cafb2135650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:17 +0000
Subject: [PATCH 04/23] fix: nullability means a symbol may succeed without
 consuming input

Look-aheads, raw-token regions and the end-of-file symbol never consume, and a
separated list can succeed on its first symbol alone. Calling them non-nullable
let left-recursive grammars through validation and ended sequence first sets
too early.
---
 src/production/terminals/eof.rs           | 7 ++++---
 src/production/wrappers/look_ahead.rs     | 7 ++++---
 src/production/wrappers/non_structural.rs | 7 ++++---
 src/production/wrappers/separated_list.rs | 7 +++----
 4 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/production/terminals/eof.rs b/src/production/terminals/eof.rs
index fa07f70..82d779c 100644
--- a/src/production/terminals/eof.rs
+++ b/src/production/terminals/eof.rs
@@ -46,21 +46,22 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for EOFProd<TN, TL> {
     type Token = TL;
 
     fn is_nullable(&self) -> bool {
-        false
+        // A match never consumes input.
+        true
     }
 
     fn obtain_nullability<'id>(
         &'id self,
         _: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        Ok(false)
+        Ok(true)
     }
 
     fn impl_first_set<'prod>(&'prod self, first_set: &mut HashSet<TL>) {
         first_set.insert(TL::eof());
     }
     fn is_nullable_n_hidden(&self) -> bool {
-        false
+        self.node_value.is_none()
     }
 
     fn validate(
diff --git a/src/production/wrappers/look_ahead.rs b/src/production/wrappers/look_ahead.rs
index b6b9563..d280573 100644
--- a/src/production/wrappers/look_ahead.rs
+++ b/src/production/wrappers/look_ahead.rs
@@ -55,7 +55,8 @@ impl<TProd: IProduction> IProduction for Lookahead<TProd> {
 
     #[inline]
     fn is_nullable(&self) -> bool {
-        false
+        // A match never consumes input.
+        true
     }
 
     fn impl_grammar(
@@ -68,9 +69,9 @@ impl<TProd: IProduction> IProduction for Lookahead<TProd> {
 
     fn obtain_nullability<'id>(
         &'id self,
-        visited: HashMap<&'id str, usize>,
+        _: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        self.production.obtain_nullability(visited)
+        Ok(true)
     }
 
     fn impl_first_set<'prod>(&'prod self, first_set: &mut HashSet<TProd::Token>) {
diff --git a/src/production/wrappers/non_structural.rs b/src/production/wrappers/non_structural.rs
index 42ef336..ae86958 100644
--- a/src/production/wrappers/non_structural.rs
+++ b/src/production/wrappers/non_structural.rs
@@ -54,7 +54,8 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
 
     #[inline]
     fn is_nullable(&self) -> bool {
-        self.get_symbol().is_nullable()
+        // A match never consumes structural tokens.
+        true
     }
 
     fn impl_grammar(
@@ -67,9 +68,9 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
 
     fn obtain_nullability<'id>(
         &'id self,
-        visited: HashMap<&'id str, usize>,
+        _: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        self.production.obtain_nullability(visited)
+        Ok(true)
     }
     fn impl_first_set<'prod>(&'prod self, first_set: &mut HashSet<TProd::Token>) {
         self.production.impl_first_set(first_set)
diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index 4a1d19a..b01084c 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -268,19 +268,18 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> IProd
     }
 
     fn is_nullable(&self) -> bool {
-        self.production.is_nullable() && self.separator.is_nullable()
+        self.production.is_nullable()
     }
 
     fn is_nullable_n_hidden(&self) -> bool {
-        self.production.is_nullable_n_hidden() && self.separator.is_nullable_n_hidden()
+        self.production.is_nullable_n_hidden()
     }
 
     fn obtain_nullability<'id>(
         &'id self,
         visited: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        Ok(self.production.obtain_nullability(visited.clone())?
-            && self.separator.obtain_nullability(visited)?)
+        self.production.obtain_nullability(visited)
     }
 
     fn impl_first_set(&self, first_set: &mut HashSet<Self::Token>) {
-- 
2.43.0


From e2b2b27f0deaa7242a0cc5007f79160520a3a1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:09 +0000
Subject: [PATCH 05/23] fix: grammar validation explored productions only on
 their second visit

has_visited() answered the opposite of its name, so most rules were never
checked for missing symbols or left recursion. A rule reached a second time is
now skipped unless it may still close a cycle before consuming input.
---
 src/production/mod.rs                    |  2 ++
 src/production/non_terminals/concat.rs   |  1 +
 src/production/non_terminals/mod.rs      | 14 +++++++++++---
 src/production/non_terminals/suffixes.rs |  1 +
 src/production/non_terminals/union.rs    |  1 +
 5 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index e135b94..63c9710 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -280,6 +280,8 @@ struct NTHelper {
     identifier: &'static str,
     nullability: OnceCell<bool>,
     null_hidden: OnceCell<bool>,
+    /// Set once the production is found to be free of left recursion.
+    left_checked: OnceCell<()>,
     debugger: OnceCell<Log<&'static str>>,
 }
 
diff --git a/src/production/non_terminals/concat.rs b/src/production/non_terminals/concat.rs
index 8f4e7f6..71eab7c 100644
--- a/src/production/non_terminals/concat.rs
+++ b/src/production/non_terminals/concat.rs
@@ -216,6 +216,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Concat<TN, TL> {
                     prod.validate(HashMap::new(), visited_prod)?;
                 }
             }
+            self.nt_helper.set_left_checked();
         }
         Ok(())
     }
diff --git a/src/production/non_terminals/mod.rs b/src/production/non_terminals/mod.rs
index bbb804b..eef0c2c 100644
--- a/src/production/non_terminals/mod.rs
+++ b/src/production/non_terminals/mod.rs
@@ -38,6 +38,7 @@ impl NTHelper {
             identifier,
             nullability: OnceCell::new(),
             null_hidden: OnceCell::new(),
+            left_checked: OnceCell::new(),
             debugger: OnceCell::new(),
         }
     }
@@ -68,15 +69,22 @@ impl NTHelper {
                 build_circular_format(self.identifier, &connected_set),
             ))
         } else {
-            if visited_prod.insert(self.identifier) {
-                let l = connected_set.len();
-                connected_set.insert(self.identifier, l);
+            let is_first_visit = visited_prod.insert(self.identifier);
+            if !is_first_visit && (connected_set.is_empty() || self.left_checked.get().is_some()) {
+                // Being validated already. It can be skipped here, unless it can still close a
+                // cycle with the productions it is reached from before consuming any input.
                 Ok(true)
             } else {
+                let l = connected_set.len();
+                connected_set.insert(self.identifier, l);
                 Ok(false)
             }
         }
     }
+
+    fn set_left_checked(&self) {
+        self.left_checked.get_or_init(|| ());
+    }
     fn assign_debugger(&self, debugger: Log<&'static str>) -> Result<(), String> {
         self.debugger
             .set(debugger)
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 3d5935c..c2b3927 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -258,6 +258,7 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
                     prod.validate(HashMap::new(), visited_prod)?;
                 }
             }
+            self.nt_helper.set_left_checked();
         }
         Ok(())
     }
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index abf7057..bbdee2a 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -210,6 +210,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
             for prod in self.get_productions() {
                 prod.validate(connected_set.clone(), visited_prod)?;
             }
+            self.nt_helper.set_left_checked();
         }
         Ok(())
     }
-- 
2.43.0


From d4c8f32d6b7ae8866972ece63eb5e4247e9cdd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:10 +0000
Subject: [PATCH 06/23] fix: every suffix of a nullable left symbol is checked
 for left recursion

---
 src/production/non_terminals/suffixes.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index c2b3927..5f1a503 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -174,7 +174,7 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         match self.nt_helper.nullability.get() {
             Some(t) => Ok(*t),
             None => {
-                let is_nullable = self.left.is_nullable() && {
+                let is_nullable = self.left.obtain_nullability(visited.clone())? && {
                     let standalone_or_nullable = self.standalone || {
                         let mut is_nullable = false;
                         for (prod, _) in self.get_suffixes() {
@@ -249,11 +249,10 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
             }
 
             self.left.validate(connected_set.clone(), visited_prod)?;
-            let mut is_nullable: bool = self.left.obtain_nullability(HashMap::new())?;
+            let is_nullable: bool = self.left.obtain_nullability(HashMap::new())?;
             for (prod, _) in self.get_suffixes() {
                 if is_nullable {
                     prod.validate(connected_set.clone(), visited_prod)?;
-                    is_nullable = prod.obtain_nullability(HashMap::new())?;
                 } else {
                     prod.validate(HashMap::new(), visited_prod)?;
                 }
-- 
2.43.0


From b590efeb236af169e9e027906e0c5b7f7209598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:54 +0000
Subject: [PATCH 07/23] fix: unassigned symbols found while deriving
 nullability are an error, not a panic

---
 src/production/non_terminals/concat.rs   |  1 +
 src/production/non_terminals/mod.rs      | 11 +++++++++++
 src/production/non_terminals/suffixes.rs |  1 +
 src/production/non_terminals/union.rs    |  1 +
 4 files changed, 14 insertions(+)

diff --git a/src/production/non_terminals/concat.rs b/src/production/non_terminals/concat.rs
index 71eab7c..3d875bc 100644
--- a/src/production/non_terminals/concat.rs
+++ b/src/production/non_terminals/concat.rs
@@ -137,6 +137,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Concat<TN, TL> {
         mut visited: HashMap<&'id str, usize>,
     ) -> Result<bool, crate::ImplementationError> {
         self.nt_helper.validate_circular_dependency(&mut visited)?;
+        self.nt_helper.validate_assigned(self.symbols.get().is_some())?;
 
         match self.nt_helper.nullability.get() {
             Some(s) => Ok(*s),
diff --git a/src/production/non_terminals/mod.rs b/src/production/non_terminals/mod.rs
index eef0c2c..8ca37b2 100644
--- a/src/production/non_terminals/mod.rs
+++ b/src/production/non_terminals/mod.rs
@@ -82,6 +82,17 @@ impl NTHelper {
         }
     }
 
+    fn validate_assigned(&self, is_assigned: bool) -> Result<(), ImplementationError> {
+        if is_assigned {
+            Ok(())
+        } else {
+            Err(ImplementationError::new(
+                "InitializationError".into(),
+                format!("Symbols are not assigned for {:?}.", self.identifier),
+            ))
+        }
+    }
+
     fn set_left_checked(&self) {
         self.left_checked.get_or_init(|| ());
     }
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 5f1a503..4cd2284 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -171,6 +171,7 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         mut visited: HashMap<&'id str, usize>,
     ) -> Result<bool, crate::ImplementationError> {
         self.nt_helper.validate_circular_dependency(&mut visited)?;
+        self.nt_helper.validate_assigned(self.suffixes.get().is_some())?;
         match self.nt_helper.nullability.get() {
             Some(t) => Ok(*t),
             None => {
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index bbdee2a..4310c77 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -148,6 +148,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
         mut visited: HashMap<&'id str, usize>,
     ) -> Result<bool, crate::ImplementationError> {
         self.nt_helper.validate_circular_dependency(&mut visited)?;
+        self.nt_helper.validate_assigned(self.symbols.get().is_some())?;
 
         match self.nt_helper.nullability.get() {
             Some(s) => Ok(*s),
-- 
2.43.0


From f9680c091dff69105f10c302776097b99007bf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:01 +0000
Subject: [PATCH 08/23] fix: picking alternatives and suffixes by the next
 token keeps ordered choice

Alternatives after the first one that can match nothing were dropped, a token
seen first by a later alternative skipped earlier ones that can match nothing,
and with no candidate the production made up a null node instead of running the
alternative. Raw tokens try every alternative, as a structural region starts
behind the next token.
---
 src/production/mod.rs                    |   5 +-
 src/production/non_terminals/suffixes.rs | 227 ++++++++---------------
 src/production/non_terminals/union.rs    | 151 ++++++---------
 3 files changed, 129 insertions(+), 254 deletions(-)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index 63c9710..c65fe4b 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -443,7 +443,7 @@ pub struct Concat<TN: NodeImpl = u8, TL: TokenImpl = i8> {
 pub struct Union<TN: NodeImpl = u8, TL: TokenImpl = i8> {
     symbols: OnceCell<Vec<Rc<dyn IProduction<Node = TN, Token = TL>>>>,
     nt_helper: NTHelper,
-    first_set: OnceCell<(bool, Vec<(TL, Vec<usize>)>)>,
+    first_set: OnceCell<(Vec<(TL, Vec<usize>)>, Vec<usize>)>,
 }
 
 pub type TSuffixMap<TN, TL> = (Rc<dyn IProduction<Node = TN, Token = TL>>, TN);
@@ -554,8 +554,7 @@ pub struct Suffixes<TP: IProduction> {
     standalone: bool,
     suffixes: OnceCell<Vec<TSuffixMap<TP::Node, TP::Token>>>,
     nt_helper: NTHelper,
-    suffix_first_set: OnceCell<(bool, Vec<(TP::Token, Vec<usize>)>)>,
-    null_suffix_index: OnceCell<Option<usize>>,
+    suffix_first_set: OnceCell<(Vec<(TP::Token, Vec<usize>)>, Vec<usize>)>,
 }
 
 /// An utility to parse a terminal or non-terminal symbols one or multiple times.
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 4cd2284..654ef37 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -5,7 +5,7 @@ use crate::{
     production::{Suffixes, TSuffixMap},
     Code,
     ASTNode, Cache, FltrPtr, IProduction, ImplementationError, ParsedResult, ProductionError,
-    SuccessData, TokenImpl, TokenPtr, TokenStream,
+    SuccessData, TokenPtr, TokenStream,
 };
 
 use once_cell::unsync::OnceCell;
@@ -28,7 +28,6 @@ impl<TP: IProduction> Suffixes<TP> {
             standalone,
             nt_helper: NTHelper::new(identifier),
             suffix_first_set: OnceCell::new(),
-            null_suffix_index: OnceCell::new(),
         }
     }
 
@@ -54,7 +53,6 @@ impl<TP: IProduction> Suffixes<TP> {
             standalone,
             nt_helper: NTHelper::new(identifier),
             suffix_first_set: OnceCell::new(),
-            null_suffix_index: OnceCell::new(),
         }
     }
 
@@ -94,22 +92,16 @@ impl<TP: IProduction> Suffixes<TP> {
         })
     }
 
-    fn obtain_first_null_suffix(&self) -> &Option<usize> {
-        self.null_suffix_index.get_or_init(|| {
-            self.get_suffixes()
-                .iter()
-                .position(|(prod, _)| prod.is_nullable())
-        })
-    }
-
-    fn obtain_suffixes_set(&self) -> &(bool, Vec<(TP::Token, Vec<usize>)>) {
+    /// Suffixes worth trying, in order, for each possible next token, and for any other token.
+    fn obtain_suffixes_set(&self) -> &(Vec<(TP::Token, Vec<usize>)>, Vec<usize>) {
         self.suffix_first_set.get_or_init(|| {
             let mut children_set: HashMap<TP::Token, Vec<usize>> = HashMap::new();
+            let mut nullable_indexes: Vec<usize> = Vec::new();
             for (index, (prod, _)) in self.get_suffixes().iter().enumerate() {
                 let mut child_set = HashSet::new();
                 prod.impl_first_set(&mut child_set);
                 for t in child_set {
-                    let v = children_set.entry(t).or_insert_with(|| Vec::new());
+                    let v = children_set.entry(t).or_insert_with(|| nullable_indexes.clone());
                     v.push(index);
                 }
                 if prod.is_nullable() {
@@ -118,7 +110,7 @@ impl<TP: IProduction> Suffixes<TP> {
                             v.push(index);
                         }
                     }
-                    break;
+                    nullable_indexes.push(index);
                 }
             }
 
@@ -134,7 +126,7 @@ impl<TP: IProduction> Suffixes<TP> {
 
             let mut v: Vec<(TP::Token, Vec<usize>)> = children_set.into_iter().collect();
             v.sort_by_key(|(t, _)| *t);
-            (v.iter().all(|(t, _)| t.is_structural()), v)
+            (v, nullable_indexes)
         })
     }
 }
@@ -273,113 +265,66 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         #[cfg(debug_assertions)]
         self.nt_helper.log_entry();
 
-        let mut left_success_data =
+        let left_success_data =
             self.left
                 .advance_fltr_ptr(code, fltr_ptr, token_stream, cache)?;
         // let mut parsed_children: Vec<Rc<AST<TProd::Token>>> = Vec::new();
 
         let suffixes = self.get_suffixes();
 
-        let (is_structural, suffix_first_set) = self.obtain_suffixes_set();
+        let (suffix_first_set, nullable_indexes) = self.obtain_suffixes_set();
 
         let moved_ptr: FltrPtr = left_success_data.consumed_index;
         let immediate_lex = &token_stream[moved_ptr];
 
-        let mut production_set_index: Option<usize> = None;
-        match suffix_first_set.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            Ok(p_index) => {
-                production_set_index = Some(p_index);
-            }
-            Err(_) => {
-                if !is_structural {
-                    let last_token_ptr = if moved_ptr > FltrPtr::default() {
-                        token_stream.get_token_ptr(moved_ptr - 1)
-                    } else {
-                        TokenPtr::default()
-                    };
-
-                    let current_token_ptr = last_token_ptr + 1;
-
-                    let current_token_lex = &token_stream[current_token_ptr];
+        let candidates =
+            match suffix_first_set.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
+                Ok(p_index) => &suffix_first_set[p_index].1,
+                Err(_) => nullable_indexes,
+            };
 
-                    if !current_token_lex.token.is_structural() {
-                        if let Ok(p_index) = suffix_first_set
-                            .binary_search_by_key(&current_token_lex.token, |(t, _)| *t)
-                        {
-                            production_set_index = Some(p_index);
-                        }
-                    }
-                }
-            }
-        }
+        for (prod, node_value) in candidates.iter().map(|j| &suffixes[*j]) {
+            match prod.advance_fltr_ptr(
+                code,
+                left_success_data.consumed_index,
+                token_stream,
+                cache,
+            ) {
+                Ok(data) => {
+                    let mut children = left_success_data.children;
+                    children.extend(data.children);
+                    let ast = ASTNode::<TP::Node>::new(
+                        node_value.clone(),
+                        token_stream.pointer(fltr_ptr),
+                        token_stream.pointer(data.consumed_index),
+                        Some((
+                            token_stream.get_token_ptr(fltr_ptr),
+                            token_stream.get_token_ptr(data.consumed_index),
+                        )),
+                        children,
+                    );
 
-        match production_set_index {
-            Some(p_index) => {
-                for (prod, node_value) in suffix_first_set[p_index].1.iter().map(|j| &suffixes[*j])
-                {
-                    match prod.advance_fltr_ptr(
+                    #[cfg(debug_assertions)]
+                    self.nt_helper.log_success(
                         code,
-                        left_success_data.consumed_index,
-                        token_stream,
-                        cache,
-                    ) {
-                        Ok(data) => {
-                            let mut children = left_success_data.children;
-                            children.extend(data.children);
-                            let ast = ASTNode::<TP::Node>::new(
-                                node_value.clone(),
-                                token_stream.pointer(fltr_ptr),
-                                token_stream.pointer(data.consumed_index),
-                                Some((
-                                    token_stream.get_token_ptr(fltr_ptr),
-                                    token_stream.get_token_ptr(data.consumed_index),
-                                )),
-                                children,
-                            );
-
-                            #[cfg(debug_assertions)]
-                            self.nt_helper.log_success(
-                                code,
-                                token_stream[fltr_ptr].start,
-                                token_stream[data.consumed_index].end,
-                            );
-
-                            return Ok(SuccessData::tree(data.consumed_index, ast));
-                        }
-                        Err(err) => {
-                            if err.is_invalid() {
-                                #[cfg(debug_assertions)]
-                                self.nt_helper
-                                    .log_error(code, token_stream[moved_ptr].start, &err);
+                        token_stream[fltr_ptr].start,
+                        token_stream[data.consumed_index].end,
+                    );
 
-                                return Err(err);
-                            }
-                        }
-                    }
+                    return Ok(SuccessData::tree(data.consumed_index, ast));
                 }
-            }
-            None => {
-                if let Some(i) = self.obtain_first_null_suffix() {
-                    let left_bound = token_stream.get_token_ptr(fltr_ptr);
-                    let right_bound = token_stream.get_token_ptr(left_success_data.consumed_index);
-
-                    if !suffixes[*i].0.is_nullable_n_hidden() {
-                        left_success_data.children.push(ASTNode::null(
-                            token_stream[left_success_data.consumed_index].start,
-                            Some(right_bound),
-                        ))
+                Err(err) => {
+                    if err.is_invalid() {
+                        #[cfg(debug_assertions)]
+                        self.nt_helper
+                            .log_error(code, token_stream[moved_ptr].start, &err);
+
+                        return Err(err);
                     }
-                    let tree = ASTNode::new(
-                        suffixes[*i].1.clone(),
-                        token_stream[fltr_ptr].start,
-                        token_stream[left_success_data.consumed_index].start,
-                        Some((left_bound, right_bound)),
-                        left_success_data.children,
-                    );
-                    return Ok(SuccessData::tree(left_success_data.consumed_index, tree));
                 }
             }
         }
+
         if self.standalone {
             #[cfg(debug_assertions)]
             self.nt_helper.log_success(
@@ -416,60 +361,38 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         let moved_ptr: TokenPtr = left_success_data.consumed_index;
         let suffixes = self.get_suffixes();
 
-        let (_, suffix_first_set) = self.obtain_suffixes_set();
-
-        let immediate_lex = &stream[moved_ptr];
-
-        if let Ok(i) = suffix_first_set.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            for (prod, node_value) in suffix_first_set[i].1.iter().map(|j| &suffixes[*j]) {
-                match prod.advance_token_ptr(code, moved_ptr, stream, cache) {
-                    Ok(success_data) => {
-                        left_success_data.consumed_index = success_data.consumed_index;
-                        left_success_data.children.extend(success_data.children);
-                        let ast = ASTNode::<TP::Node>::new(
-                            node_value.clone(),
-                            stream[index].start,
-                            stream[success_data.consumed_index].start,
-                            Some((index, success_data.consumed_index)),
-                            left_success_data.children,
-                        );
-
-                        let data = SuccessData::tree(success_data.consumed_index, ast);
+        for (prod, node_value) in suffixes {
+            match prod.advance_token_ptr(code, moved_ptr, stream, cache) {
+                Ok(success_data) => {
+                    left_success_data.consumed_index = success_data.consumed_index;
+                    left_success_data.children.extend(success_data.children);
+                    let ast = ASTNode::<TP::Node>::new(
+                        node_value.clone(),
+                        stream[index].start,
+                        stream[success_data.consumed_index].start,
+                        Some((index, success_data.consumed_index)),
+                        left_success_data.children,
+                    );
+
+                    let data = SuccessData::tree(success_data.consumed_index, ast);
+                    #[cfg(debug_assertions)]
+                    self.nt_helper.log_success(
+                        code,
+                        stream[index].start,
+                        stream[data.consumed_index].start,
+                    );
+                    return Ok(data);
+                }
+                Err(err) => {
+                    if err.is_invalid() {
                         #[cfg(debug_assertions)]
-                        self.nt_helper.log_success(
-                            code,
-                            stream[index].start,
-                            stream[data.consumed_index].start,
-                        );
-                        return Ok(data);
-                    }
-                    Err(err) => {
-                        if err.is_invalid() {
-                            #[cfg(debug_assertions)]
-                            self.nt_helper.log_error(code, stream[index].start, &err);
-                            return Err(err);
-                        }
+                        self.nt_helper.log_error(code, stream[index].start, &err);
+                        return Err(err);
                     }
                 }
             }
-        } else {
-            if let Some(i) = self.obtain_first_null_suffix() {
-                if !suffixes[*i].0.is_nullable_n_hidden() {
-                    left_success_data.children.push(ASTNode::null(
-                        stream[left_success_data.consumed_index].start,
-                        Some(left_success_data.consumed_index),
-                    ))
-                }
-                let tree = ASTNode::new(
-                    suffixes[*i].1.clone(),
-                    stream[index].start,
-                    stream[left_success_data.consumed_index].start,
-                    Some((index, left_success_data.consumed_index)),
-                    left_success_data.children,
-                );
-                return Ok(SuccessData::tree(left_success_data.consumed_index, tree));
-            }
         }
+
         if self.standalone {
             #[cfg(debug_assertions)]
             self.nt_helper.log_success(
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index 4310c77..73d2774 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -2,8 +2,8 @@ use crate::production::NTHelper;
 #[cfg(debug_assertions)]
 use crate::production::ProductionLogger;
 use crate::{
-    production::Union, Code, ASTNode, Cache, FltrPtr, IProduction, ImplementationError,
-    NodeImpl, ParsedResult, ProductionError, SuccessData, TokenImpl, TokenPtr, TokenStream,
+    production::Union, Code, Cache, FltrPtr, IProduction, ImplementationError,
+    NodeImpl, ParsedResult, ProductionError, TokenImpl, TokenPtr, TokenStream,
 };
 
 use once_cell::unsync::OnceCell;
@@ -77,15 +77,17 @@ impl<TN: NodeImpl, TL: TokenImpl> Union<TN, TL> {
         })
     }
 
-    fn obtain_first_set(&self) -> &(bool, Vec<(TL, Vec<usize>)>) {
+    /// Alternatives worth trying, in order, for each possible next token, and for any other token.
+    fn obtain_first_set(&self) -> &(Vec<(TL, Vec<usize>)>, Vec<usize>) {
         self.first_set.get_or_init(|| {
             let mut children_set: HashMap<TL, Vec<usize>> = HashMap::new();
+            let mut nullable_indexes: Vec<usize> = Vec::new();
             for (index, prod) in self.get_productions().iter().enumerate() {
                 let mut child_set = HashSet::new();
                 prod.impl_first_set(&mut child_set);
 
                 for t in child_set {
-                    let indexes = children_set.entry(t).or_insert_with(|| Vec::new());
+                    let indexes = children_set.entry(t).or_insert_with(|| nullable_indexes.clone());
                     indexes.push(index);
                 }
                 if prod.is_nullable() {
@@ -94,7 +96,7 @@ impl<TN: NodeImpl, TL: TokenImpl> Union<TN, TL> {
                             v.push(index);
                         }
                     }
-                    break; // We do not want to visit more production if we find nullable production.
+                    nullable_indexes.push(index);
                 }
             }
 
@@ -110,7 +112,7 @@ impl<TN: NodeImpl, TL: TokenImpl> Union<TN, TL> {
 
             let mut v: Vec<(TL, Vec<usize>)> = children_set.into_iter().collect();
             v.sort_by_key(|(t, _)| *t);
-            (v.iter().all(|(t, _)| t.is_structural()), v)
+            (v, nullable_indexes)
         })
     }
 }
@@ -228,75 +230,37 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
 
         let immediate_lex = &token_stream[fltr_ptr];
 
-        let (is_structural, first_sets) = self.obtain_first_set();
+        let (first_sets, nullable_indexes) = self.obtain_first_set();
 
         let productions = self.get_productions();
 
-        let mut production_set_index: Option<usize> = None;
+        let candidates = match first_sets.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
+            Ok(p_index) => &first_sets[p_index].1,
+            Err(_) => nullable_indexes,
+        };
+
+        for prod in candidates.iter().map(|j| &productions[*j]) {
+            match prod.advance_fltr_ptr(code, fltr_ptr, token_stream, cache) {
+                Ok(s) => {
+                    #[cfg(debug_assertions)]
+                    self.nt_helper.log_success(
+                        code,
+                        token_stream[fltr_ptr].start,
+                        token_stream[s.consumed_index].start,
+                    );
 
-        match first_sets.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            Ok(p_index) => {
-                production_set_index = Some(p_index);
-            }
-            Err(_) => {
-                if !is_structural {
-                    let last_token_ptr = if fltr_ptr > FltrPtr::default() {
-                        token_stream.get_token_ptr(fltr_ptr - 1)
-                    } else {
-                        TokenPtr::default()
-                    };
-
-                    let current_token_ptr = last_token_ptr + 1;
-
-                    let current_token_lex = &token_stream[current_token_ptr];
-
-                    if !current_token_lex.token.is_structural() {
-                        if let Ok(p_i) =
-                            first_sets.binary_search_by_key(&current_token_lex.token, |(t, _)| *t)
-                        {
-                            production_set_index = Some(p_i);
-                        }
-                    }
+                    return Ok(s);
                 }
-            }
-        }
-        match production_set_index {
-            Some(p_index) => {
-                for prod in first_sets[p_index].1.iter().map(|j| &productions[*j]) {
-                    match prod.advance_fltr_ptr(code, fltr_ptr, token_stream, cache) {
-                        Ok(s) => {
-                            #[cfg(debug_assertions)]
-                            self.nt_helper.log_success(
-                                code,
-                                token_stream[fltr_ptr].start,
-                                token_stream[s.consumed_index].start,
-                            );
-
-                            return Ok(s);
-                        }
-                        Err(err) => {
-                            if err.is_invalid() {
-                                #[cfg(debug_assertions)]
-                                self.nt_helper
-                                    .log_error(code, token_stream[fltr_ptr].start, &err);
-                                // println!("Returning validation Err:{:?}", err);
-                                return Err(err);
-                            }
-                        }
+                Err(err) => {
+                    if err.is_invalid() {
+                        #[cfg(debug_assertions)]
+                        self.nt_helper
+                            .log_error(code, token_stream[fltr_ptr].start, &err);
+                        // println!("Returning validation Err:{:?}", err);
+                        return Err(err);
                     }
                 }
             }
-            None => {
-                if self.is_nullable_n_hidden() {
-                    return Ok(SuccessData::hidden(fltr_ptr));
-                } else if self.is_nullable() {
-                    let tree = ASTNode::null(
-                        token_stream[fltr_ptr].start,
-                        Some(token_stream.get_token_ptr(fltr_ptr)),
-                    );
-                    return Ok(SuccessData::tree(fltr_ptr, tree));
-                }
-            }
         }
 
         #[cfg(debug_assertions)]
@@ -319,48 +283,37 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
         #[cfg(debug_assertions)]
         self.nt_helper.log_entry();
 
+        #[cfg(debug_assertions)]
         let immediate_lex = &token_stream[index];
 
-        let (_, first_sets) = self.obtain_first_set();
+        for prod in self.get_productions() {
+            match prod.advance_token_ptr(code, index, token_stream, cache) {
+                Ok(s) => {
+                    #[cfg(debug_assertions)]
+                    self.nt_helper.log_success(
+                        code,
+                        immediate_lex.start,
+                        token_stream[s.consumed_index].start,
+                    );
 
-        if let Ok(p_index) = first_sets.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            let productions = self.get_productions();
-            for prod in first_sets[p_index].1.iter().map(|j| &productions[*j]) {
-                match prod.advance_token_ptr(code, index, token_stream, cache) {
-                    Ok(s) => {
+                    return Ok(s);
+                }
+                Err(err) => {
+                    if err.is_invalid() {
                         #[cfg(debug_assertions)]
-                        self.nt_helper.log_success(
-                            code,
-                            immediate_lex.start,
-                            token_stream[s.consumed_index].start,
-                        );
-
-                        return Ok(s);
-                    }
-                    Err(err) => {
-                        if err.is_invalid() {
-                            #[cfg(debug_assertions)]
-                            self.nt_helper.log_error(code, immediate_lex.start, &err);
-                            // println!("Returning validation Err:{:?}", err);
-                            return Err(err);
-                        }
+                        self.nt_helper.log_error(code, immediate_lex.start, &err);
+                        // println!("Returning validation Err:{:?}", err);
+                        return Err(err);
                     }
                 }
             }
         }
 
-        if self.is_nullable_n_hidden() {
-            Ok(SuccessData::hidden(index))
-        } else if self.is_nullable() {
-            let tree = ASTNode::null(token_stream[index].start, Some(index));
-            Ok(SuccessData::tree(index, tree))
-        } else {
-            #[cfg(debug_assertions)]
-            self.nt_helper
-                .log_error(code, token_stream[index].start, &ProductionError::Unparsed);
+        #[cfg(debug_assertions)]
+        self.nt_helper
+            .log_error(code, token_stream[index].start, &ProductionError::Unparsed);
 
-            Err(ProductionError::Unparsed)
-        }
+        Err(ProductionError::Unparsed)
     }
 
     fn advance_ptr(
-- 
2.43.0


From a56a2a963e9191b0c01f1770783fb87909bb6643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:22 +0000
Subject: [PATCH 09/23] fix: structural region in raw tokens starts at the
 structural token it stands on

It skipped the structural token at the current position, and moved the raw
position even when the region consumed nothing.
---
 src/production/wrappers/structural.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/production/wrappers/structural.rs b/src/production/wrappers/structural.rs
index e9658f5..b87ce30 100644
--- a/src/production/wrappers/structural.rs
+++ b/src/production/wrappers/structural.rs
@@ -112,8 +112,7 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
         self.log_entry();
 
         let next_fltr_ptr = match token_stream.find_filter_ptr(index) {
-            Ok(fp) => fp + 1,
-            Err(fp) => fp,
+            Ok(fp) | Err(fp) => fp,
         };
 
         let parsed_data =
@@ -127,13 +126,13 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
             token_stream[parsed_data.consumed_index].start,
         );
 
-        let last_token_ptr = if parsed_data.consumed_index > FltrPtr::default() {
-            token_stream.get_token_ptr(parsed_data.consumed_index - 1)
+        let moved_ptr = if parsed_data.consumed_index > next_fltr_ptr {
+            token_stream.get_token_ptr(parsed_data.consumed_index - 1) + 1
         } else {
-            TokenPtr::default()
+            index // No structural token is consumed.
         };
 
-        Ok(SuccessData::new(last_token_ptr + 1, parsed_data.children))
+        Ok(SuccessData::new(moved_ptr, parsed_data.children))
     }
 
     fn advance_ptr(
-- 
2.43.0


From 3a484f71edd80a2ac13ad9c598dd25dcc40d4bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:22 +0000
Subject: [PATCH 10/23] fix: raw region before the first structural token
 starts at the first token

---
 src/production/wrappers/non_structural.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/production/wrappers/non_structural.rs b/src/production/wrappers/non_structural.rs
index ae86958..9b023c6 100644
--- a/src/production/wrappers/non_structural.rs
+++ b/src/production/wrappers/non_structural.rs
@@ -99,14 +99,14 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
         self.log_entry();
 
         let start_segment = if fltr_ptr > FltrPtr::default() {
-            token_stream.get_token_ptr(fltr_ptr - 1)
+            token_stream.get_token_ptr(fltr_ptr - 1) + 1
         } else {
             TokenPtr::default()
         };
 
         let parsed_data =
             self.get_symbol()
-                .advance_token_ptr(code, start_segment + 1, token_stream, cache)?;
+                .advance_token_ptr(code, start_segment, token_stream, cache)?;
 
         let result = if self.fill_range {
             let end_segment = token_stream.get_token_ptr(fltr_ptr);
-- 
2.43.0


From 04e0d6aeccdb5fab34679013490d5037b1df7265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:22 +0000
Subject: [PATCH 11/23] fix: token stream lookups report inexact hits, the
 right token and existence

---
 src/filtered_stream.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/filtered_stream.rs b/src/filtered_stream.rs
index dc2887a..5e53500 100644
--- a/src/filtered_stream.rs
+++ b/src/filtered_stream.rs
@@ -86,8 +86,8 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
             .filtered_stream
             .binary_search_by_key(&code_pointer, |s| self[*s].start)
         {
-            Ok(index) => Ok(&self.original_stream[index]),
-            Err(index) => Err(&self.original_stream[index]),
+            Ok(index) => Ok(&self[FltrPtr(index)]),
+            Err(index) => Err(&self[FltrPtr(index)]),
         }
     }
     pub fn pointer(&self, filtered_index: FltrPtr) -> usize {
@@ -102,7 +102,7 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
     }
 
     pub fn has_stream(&self, index: FltrPtr) -> bool {
-        self.filtered_stream.len() < index.0
+        index.0 < self.filtered_stream.len()
     }
     pub fn eos_pointer(&self) -> usize {
         self.original_stream[self.original_stream.len() - 1].end
@@ -147,7 +147,7 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
     pub fn find_filter_ptr(&self, index: TokenPtr) -> Result<FltrPtr, FltrPtr> {
         match self.filtered_stream.binary_search(&index) {
             Ok(i) => Ok(FltrPtr(i)),
-            Err(i) => Ok(FltrPtr(i)),
+            Err(i) => Err(FltrPtr(i)),
         }
     }
     pub fn last_segment_index(&self, lex_index: &FltrPtr) -> Option<TokenPtr> {
-- 
2.43.0


From 49bc3fe5315f44f9234473096380beb12a817b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:06 +0000
Subject: [PATCH 12/23] fix: constants lexeme matches only values found in the
 input

---
 src/lexeme/constants.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexeme/constants.rs b/src/lexeme/constants.rs
index 7c03d57..01db461 100644
--- a/src/lexeme/constants.rs
+++ b/src/lexeme/constants.rs
@@ -53,6 +53,9 @@ where
     ) -> Option<Lex<Self::Token>> {
         self.log_enter();
         let result = self.values.iter().rev().find_map(|(value, token)| {
+            if value.is_empty() || !code.value[pointer..].starts_with(value.as_bytes()) {
+                return None;
+            }
             let lex = Lex::new(token.clone(), pointer, pointer + value.len());
             Some(lex)
         });
-- 
2.43.0


From 43c6e9d1c828019450b95291cb96bda44231a238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:06 +0000
Subject: [PATCH 13/23] fix: longest literal match falls back to the longest
 complete literal

---
 src/field_tree.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/field_tree.rs b/src/field_tree.rs
index 9297fc7..18fe651 100644
--- a/src/field_tree.rs
+++ b/src/field_tree.rs
@@ -34,8 +34,12 @@ impl<TToken: Clone> FieldTree<TToken> {
     pub fn find(&self, code_part: &[u8]) -> Option<(TToken, usize)> {
         let mut current_field = self;
         let mut index = 0;
+        let mut longest = None;
 
         loop {
+            if let Some(t) = current_field.token.as_ref() {
+                longest = Some((t.clone(), index));
+            }
             if code_part.len() > index {
                 match current_field
                     .children
@@ -46,11 +50,11 @@ impl<TToken: Clone> FieldTree<TToken> {
                         current_field = &current_field.children[i].1;
                     }
                     Err(_) => {
-                        break current_field.token.as_ref().map(|t| (t.clone(), index));
+                        break longest;
                     }
                 }
             } else {
-                break current_field.token.as_ref().map(|t| (t.clone(), index));
+                break longest;
             }
         }
     }
-- 
2.43.0


From 4e46aa199a3deafdc9cf4e79cf7b29078ff00808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:06 +0000
Subject: [PATCH 14/23] fix: an empty punctuation is rejected, as it would
 match without consuming

---
 src/lexeme/punctuation.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexeme/punctuation.rs b/src/lexeme/punctuation.rs
index 13ff636..2810186 100644
--- a/src/lexeme/punctuation.rs
+++ b/src/lexeme/punctuation.rs
@@ -23,6 +23,9 @@ impl<TToken: Debug + Copy, TState> Punctuations<TToken, TState> {
 
     fn add(&mut self, fields: Vec<(&str, TToken)>) -> Result<(), String> {
         for (key, token) in fields {
+            if key.is_empty() {
+                return Err(format!("Punctuation for token {:?} should not be empty.", token));
+            }
             self.field_tree
                 .insert(key.as_bytes(), token)
                 .map_err(|err| {
-- 
2.43.0


From 550955c4ad40c2cb268265d7b7d6d92561855d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:06 +0000
Subject: [PATCH 15/23] fix: validating a constant field set is implemented

---
 src/production/terminals/constant_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/production/terminals/constant_field.rs b/src/production/terminals/constant_field.rs
index e188046..b5c8aa2 100644
--- a/src/production/terminals/constant_field.rs
+++ b/src/production/terminals/constant_field.rs
@@ -306,6 +306,6 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for ConstantFieldSet<TN, TL> {
         _: HashMap<&'id str, usize>,
         _: &mut HashSet<&'id str>,
     ) -> Result<(), crate::ImplementationError> {
-        todo!()
+        Ok(())
     }
 }
-- 
2.43.0


From 245fe66b5742817b09f6de3cd93a1a8930ed662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 16/23] fix: an empty input tokenizes to the end of file token

---
 src/tokenization.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tokenization.rs b/src/tokenization.rs
index cada259..faa916b 100644
--- a/src/tokenization.rs
+++ b/src/tokenization.rs
@@ -64,6 +64,10 @@ impl<TToken: TokenImpl, TState: Copy + Debug + Ord + Eq> ITokenization
             println!("Begin tokenization for state: {:?}", current_state);
         }
 
+        if eof_pointer == 0 {
+            return Ok(vec![Lex::new(TToken::eof(), 0, 0)]);
+        }
+
         loop {
             match current_analyzer
                 .1
@@ -161,6 +165,10 @@ impl<TToken: TokenImpl, TState: Copy + Debug + Default + Ord + Eq> ITokenization
 
         let mut state_stack = Vec::new();
 
+        if eof_pointer == 0 {
+            return Ok(vec![Lex::new(TToken::eof(), 0, 0)]);
+        }
+
         loop {
             match self
                 .lexers
-- 
2.43.0


From 6a68dde2614ca9e1f4ed4c9ff8cc35b77ff4d217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 17/23] fix: leaving a tokenization state on an empty stack
 rejects the lexeme instead of panicking

---
 src/lexeme/mixin.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/lexeme/mixin.rs b/src/lexeme/mixin.rs
index 9a37e85..e1f481a 100644
--- a/src/lexeme/mixin.rs
+++ b/src/lexeme/mixin.rs
@@ -8,19 +8,12 @@ fn perform_state_action<TToken, TState: PartialEq + Debug>(
     lexical_data: Lex<TToken>,
     action: Action<TState>,
     state_stack: &mut Vec<TState>,
-    pointer: usize,
-    code: &Code,
 ) -> Option<Lex<TToken>> {
     let shall_discard = match action {
         Action::Pop { discard } => match state_stack.pop() {
             Some(_) => discard,
-            None => {
-                panic!(
-                    "Failed to remove a state from empty state stack at {} ({}).",
-                    pointer,
-                    code.obtain_position(pointer)
-                )
-            }
+            // There is no state to leave, the lexeme does not apply here.
+            None => return None,
         },
         Action::Append { state, discard } => {
             state_stack.push(state);
@@ -97,8 +90,6 @@ impl<TL: ILexeme> ILexeme for StateMixin<TL> {
                         lexical_data,
                         self.actions[index].1,
                         info,
-                        pointer,
-                        code,
                     ),
                     Err(_) => Some(lexical_data),
                 }
@@ -167,7 +158,7 @@ impl<TL: ILexeme, TF: Fn(&Lex<TL::Token>, &[u8], &Vec<Lex<TL::Token>>) -> Action
             Some(lexical_data) => {
                 let action = (self.thunk_action)(&lexical_data, &code.value, tokenized_stream);
 
-                perform_state_action(lexical_data, action, state_stack, pointer, code)
+                perform_state_action(lexical_data, action, state_stack)
             }
             None => None,
         }
-- 
2.43.0


From 267b9a91109df4f13ea9e57c380d89762be3e0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 18/23] fix: the unexpected token is the one at the furthest
 parsed position, not the one after it

---
 src/cache.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 13afc24..e7defbd 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -66,8 +66,7 @@ impl<TNode: NodeImpl> Cache<FltrPtr, TNode> {
         let pointer = match err {
             ProductionError::Unparsed => {
                 let failed_index = match stream.filtered_index_at(self.max_parsed_point) {
-                    Ok(i) => i + 1,
-                    Err(i) => i,
+                    Ok(i) | Err(i) => i,
                 };
 
                 match stream.get(failed_index) {
-- 
2.43.0


From c8de140e5183944c0c788346fddcbf85ce141b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 19/23] fix: error messages stay valid text when the unexpected
 character is not ASCII

---
 src/cache.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index e7defbd..615fd71 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -74,11 +74,9 @@ impl<TNode: NodeImpl> Cache<FltrPtr, TNode> {
                         if lex_data.token == TL::eof() {
                             writeln!(error_message, "Unexpected end of file.").unwrap();
                         } else {
-                            let s = unsafe {
-                                std::str::from_utf8_unchecked(
-                                    &code.value[lex_data.start..lex_data.end],
-                                )
-                            };
+                            let s = String::from_utf8_lossy(
+                                &code.value[lex_data.start..lex_data.end],
+                            );
                             if cfg!(debug_assertions) {
                                 writeln!(
                                     error_message,
@@ -111,6 +109,16 @@ impl<TNode: NodeImpl> Cache<FltrPtr, TNode> {
         ParseError::new(pointer, error_message)
     }
 }
+/// The first character of the text, or a replacement character for invalid UTF-8.
+fn first_char(text: &[u8]) -> char {
+    let text = &text[..std::cmp::min(text.len(), 4)];
+    let valid = match std::str::from_utf8(text) {
+        Ok(s) => s,
+        Err(err) => std::str::from_utf8(&text[..err.valid_up_to()]).unwrap_or_default(),
+    };
+    valid.chars().next().unwrap_or(char::REPLACEMENT_CHARACTER)
+}
+
 impl<TToken> Cache<usize, TToken> {
     pub fn create_error(&self, code: &Code, err: ProductionError) -> ParseError {
         let (pointer, mut error_message) = match err {
@@ -121,11 +129,10 @@ impl<TToken> Cache<usize, TToken> {
                     let failed_index = self.get_index();
                     (
                         failed_index,
-                        format!("Unexpected '{}'.", unsafe {
-                            std::str::from_utf8_unchecked(
-                                &code.value[failed_index..failed_index + 1],
-                            )
-                        },),
+                        format!(
+                            "Unexpected '{}'.",
+                            first_char(&code.value[failed_index..])
+                        ),
                     )
                 }
             }
-- 
2.43.0


From e3a654acb33b97ceb304042ecc4ffe121f0520ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 20/23] fix: position of a text counts the column from its last
 line break

---
 src/position.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index dfc3031..32c4c94 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -13,11 +13,11 @@ impl From<&[u8]> for Position {
     fn from(code: &[u8]) -> Self {
         let mut pointer: usize = 0;
         let mut line: usize = 0;
-        for c in code {
+        for (index, c) in code.iter().enumerate() {
             if *c == b'\n' {
                 line += 1;
+                pointer = index + 1;
             }
-            pointer += 1;
         }
         let s = unsafe { std::str::from_utf8_unchecked(&code[pointer..]) };
         Position::new(line + 1, s.len() + 1)
-- 
2.43.0


From 87cbc5a2c31213f9e83b5ecf0b8bc788038cd7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 21/23] fix: printed grammar includes the rules reached through
 unions and suffixes

---
 src/production/non_terminals/suffixes.rs | 5 +++++
 src/production/non_terminals/union.rs    | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 654ef37..fef0441 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -218,6 +218,11 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
             if self.standalone {
                 writeln!(writer, "{:>6} {}", "|", self.left)?;
             }
+
+            self.left.impl_grammar(writer, visited)?;
+            for (prod, _) in self.get_suffixes() {
+                prod.impl_grammar(writer, visited)?;
+            }
         }
         Ok(())
     }
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index 73d2774..e065f4f 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -188,6 +188,10 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
                     writeln!(writer, "{:>6} {}", "|", prod)?;
                 }
             }
+
+            for prod in self.get_productions() {
+                prod.impl_grammar(writer, visited)?;
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 7841a20ace21acd5d70b79a81ca63709bb293a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:21 +0000
Subject: [PATCH 22/23] fix: mapped values are printed in a stable order

---
 src/lexeme/mapper.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lexeme/mapper.rs b/src/lexeme/mapper.rs
index a70e1d7..e6d56f4 100644
--- a/src/lexeme/mapper.rs
+++ b/src/lexeme/mapper.rs
@@ -73,9 +73,12 @@ impl<TLexer: ILexeme> ILexeme for Mapper<TLexer> {
         })
     }
     fn get_grammar_field(&self) -> Vec<(<TLexer as ILexeme>::Token, String)> {
-        let mut v: Vec<(TLexer::Token, String)> = self
-            .fields
-            .iter()
+        // The map has no stable order, the printed grammar needs one.
+        let mut fields: Vec<(&Vec<u8>, &TLexer::Token)> = self.fields.iter().collect();
+        fields.sort_by(|a, b| a.0.cmp(b.0));
+
+        let mut v: Vec<(TLexer::Token, String)> = fields
+            .into_iter()
             .map(|(s, t)| {
                 let s = unsafe { std::str::from_utf8_unchecked(s) };
 
-- 
2.43.0


From 8bb3194d45709c8da393fa2626497265c43b7077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 23/23] fix: first tokens are computed once per production

Without it the first parse of a chain of rules, each referring to the next
one twice, takes time exponential in the length of the chain.
---
 src/production/mod.rs                    |  3 ++-
 src/production/non_terminals/concat.rs   | 17 ++++++++++++-----
 src/production/non_terminals/suffixes.rs |  5 ++---
 src/production/non_terminals/union.rs    |  5 ++---
 4 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index c65fe4b..b9ce3b2 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -196,7 +196,7 @@ mod terminals;
 mod wrappers;
 use once_cell::unsync::OnceCell;
 use regex::bytes::Regex;
-use std::{marker::PhantomData, rc::Rc};
+use std::{collections::HashSet, marker::PhantomData, rc::Rc};
 
 #[cfg(test)]
 mod __tests__;
@@ -365,6 +365,7 @@ struct NTHelper {
 pub struct Concat<TN: NodeImpl = u8, TL: TokenImpl = i8> {
     symbols: OnceCell<Vec<Rc<dyn IProduction<Node = TN, Token = TL>>>>,
     nt_helper: NTHelper,
+    first_set: OnceCell<HashSet<TL>>,
 }
 
 /// A non-terminal utility to implement alternative derivations of productions.
diff --git a/src/production/non_terminals/concat.rs b/src/production/non_terminals/concat.rs
index 3d875bc..81aa310 100644
--- a/src/production/non_terminals/concat.rs
+++ b/src/production/non_terminals/concat.rs
@@ -20,6 +20,7 @@ impl<TN: NodeImpl, TL: TokenImpl> Concat<TN, TL> {
         Self {
             symbols: OnceCell::new(),
             nt_helper: NTHelper::new(identifier),
+            first_set: OnceCell::new(),
         }
     }
 
@@ -39,6 +40,7 @@ impl<TN: NodeImpl, TL: TokenImpl> Concat<TN, TL> {
         Self {
             symbols: production_cell,
             nt_helper: NTHelper::new(identifier),
+            first_set: OnceCell::new(),
         }
     }
 
@@ -157,12 +159,17 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Concat<TN, TL> {
     }
 
     fn impl_first_set(&self, first_set: &mut HashSet<Self::Token>) {
-        for prod in self.get_productions() {
-            prod.impl_first_set(first_set);
-            if !prod.is_nullable() {
-                break;
+        // Computed once, productions may be reached along many paths.
+        first_set.extend(self.first_set.get_or_init(|| {
+            let mut child_set = HashSet::new();
+            for prod in self.get_productions() {
+                prod.impl_first_set(&mut child_set);
+                if !prod.is_nullable() {
+                    break;
+                }
             }
-        }
+            child_set
+        }));
     }
 
     fn impl_grammar(
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index fef0441..0860d11 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -190,9 +190,8 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
     fn impl_first_set(&self, first_set: &mut HashSet<Self::Token>) {
         self.left.impl_first_set(first_set);
         if self.left.is_nullable() {
-            for (prod, _) in self.get_suffixes() {
-                prod.impl_first_set(first_set);
-            }
+            // Computed once, productions may be reached along many paths.
+            first_set.extend(self.obtain_suffixes_set().0.iter().map(|(t, _)| *t));
         }
     }
 
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index e065f4f..f91a754 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -169,9 +169,8 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
     }
 
     fn impl_first_set(&self, first_set: &mut HashSet<Self::Token>) {
-        for prod in self.get_productions() {
-            prod.impl_first_set(first_set)
-        }
+        // Computed once, productions may be reached along many paths.
+        first_set.extend(self.obtain_first_set().0.iter().map(|(t, _)| *t));
     }
 
     fn impl_grammar(
-- 
2.43.0

