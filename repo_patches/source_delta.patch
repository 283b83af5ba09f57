From b1cf609083e3f963c1ae3293b0be3e1a9ac539e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:55 +0000
Subject: [PATCH 01/29] fix: Cfg::extend respects the right-hand-side length
 limit

---
 cfg-grammar/src/cfg.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cfg-grammar/src/cfg.rs b/cfg-grammar/src/cfg.rs
index 2da8cb6..a8656ce 100644
--- a/cfg-grammar/src/cfg.rs
+++ b/cfg-grammar/src/cfg.rs
@@ -262,7 +262,9 @@ impl Cfg {
     /// Extend the list of rules with the rules in the given grammar.
     /// The given grammar must have a compatible set of symbols.
     pub fn extend(&mut self, other: &Cfg) {
-        self.rules.extend(other.rules.iter().cloned());
+        for rule in other.rules() {
+            self.add_rule(rule.clone());
+        }
     }
 
     /// Ensures the grammar is binarized and eliminates all nulling rules, which have the
-- 
2.43.0


From 880a0485e3be299559cd870a30ce69295323e681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:51 +0000
Subject: [PATCH 02/29] fix: Cfg::equivalent compares the numbers of rules and
 of right-hand-side symbols

---
 cfg-grammar/src/compare.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfg-grammar/src/compare.rs b/cfg-grammar/src/compare.rs
index aec4ee0..9a871e5 100644
--- a/cfg-grammar/src/compare.rs
+++ b/cfg-grammar/src/compare.rs
@@ -3,9 +3,9 @@ use crate::Cfg;
 impl Cfg {
     /// Compares the grammars. The symbol numeric values must match.
     pub fn equivalent(&self, other: &Cfg) -> bool {
-        let mut eq = true;
+        let mut eq = self.rules().count() == other.rules().count();
         for (i, j) in self.rules().zip(other.rules()) {
-            eq = eq && i.lhs == j.lhs && i.rhs.iter().zip(j.rhs.iter()).all(|(a, b)| *a == *b);
+            eq = eq && i.lhs == j.lhs && i.rhs == j.rhs;
         }
         eq
     }
-- 
2.43.0


From 66c88c68caed69755796b9a2f0a570e02592a2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:51 +0000
Subject: [PATCH 03/29] fix: SymbolBitSet::is_empty was inverted

---
 cfg-grammar/src/symbol_bit_set.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfg-grammar/src/symbol_bit_set.rs b/cfg-grammar/src/symbol_bit_set.rs
index 0aaec73..067224d 100644
--- a/cfg-grammar/src/symbol_bit_set.rs
+++ b/cfg-grammar/src/symbol_bit_set.rs
@@ -175,9 +175,9 @@ impl SymbolBitSet {
         self.bit_vec.iter().all(|b| b)
     }
 
-    /// Not to be confused with `fn is_empty`.
+    /// Determines whether this set contains no symbols.
     pub fn is_empty(&self) -> bool {
-        self.bit_vec.iter().any(|b| b)
+        !self.bit_vec.iter().any(|b| b)
     }
 
     /// Reserves space for additional symbols.
-- 
2.43.0


From b4d6558a440545b02f179c10b4a64ccdd3d24a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:51 +0000
Subject: [PATCH 04/29] fix: make_proper also removes rules that become
 unreachable once unproductive rules are gone

---
 cfg-classify/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cfg-classify/src/lib.rs b/cfg-classify/src/lib.rs
index 63fd48d..9358612 100644
--- a/cfg-classify/src/lib.rs
+++ b/cfg-classify/src/lib.rs
@@ -79,15 +79,17 @@ impl CfgClassifyExt for Cfg {
     }
 
     fn make_proper(&mut self) -> bool {
-        let usefulness = self.usefulness();
+        let mut usefulness = self.usefulness();
         let contains_useless_rules = !usefulness.all_useful();
-        if contains_useless_rules {
+        // Removing unproductive rules may make other rules unreachable.
+        while !usefulness.all_useful() {
             // for useless in usefulness.useless_rules() {
             //     let rhs: Vec<_> = useless.rule.rhs().iter().map(|t| tok.get(t.usize())).collect();
             //     println!("lhs:{:?} rhs:{:?} unreachable:{} unproductive:{}", tok.get(useless.rule.lhs().usize()), rhs, useless.unreachable, useless.unproductive);
             // }
             // println!("warning: grammar has useless rules");
             usefulness.remove_useless_rules(self);
+            usefulness = self.usefulness();
         }
         !contains_useless_rules
     }
-- 
2.43.0


From 08d2b11cd544fe26bec9ee09f6012bf22794e6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:51 +0000
Subject: [PATCH 05/29] fix: rewrite_cycles keeps the roots on the symbols they
 were merged into

---
 cfg-classify/src/cyclical.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/cfg-classify/src/cyclical.rs b/cfg-classify/src/cyclical.rs
index f4d7d16..86f6632 100644
--- a/cfg-classify/src/cyclical.rs
+++ b/cfg-classify/src/cyclical.rs
@@ -4,7 +4,7 @@ use std::borrow::{Borrow, BorrowMut};
 use std::collections::BTreeMap;
 
 use cfg_grammar::{Cfg, CfgRule, SymbolBitSet};
-use cfg_symbol::SymbolSource;
+use cfg_symbol::{Symbol, SymbolSource};
 use cfg_symbol_bit_matrix::{CfgSymbolBitMatrixExt, UnitDerivationMatrix};
 
 /// Provides information about cycles among unit derivations in the grammar. There are two ways of
@@ -126,6 +126,25 @@ impl<G: BorrowMut<Cfg>> Cycles<G> {
             for rule in rewritten_rules {
                 self.grammar.borrow_mut().add_rule(rule);
             }
+            // The roots must follow the symbols they were merged into.
+            let translate = |sym: Symbol| match translation.get(&sym) {
+                Some(&Some(new_sym)) => new_sym,
+                _ => sym,
+            };
+            let grammar = self.grammar.borrow_mut();
+            let roots: Vec<_> = grammar.roots().iter().copied().map(translate).collect();
+            grammar.set_roots(&roots[..]);
+            let wrapped_roots: Vec<_> = grammar
+                .wrapped_roots()
+                .iter()
+                .copied()
+                .map(|mut wrapped_root| {
+                    wrapped_root.inner_root = translate(wrapped_root.inner_root);
+                    wrapped_root.root = translate(wrapped_root.root);
+                    wrapped_root
+                })
+                .collect();
+            grammar.set_wrapped_roots(&wrapped_roots[..]);
         }
     }
 }
-- 
2.43.0


From dfea50abcdf802a00a902f6b7fcda3b9e40031ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:51 +0000
Subject: [PATCH 06/29] fix: FOLLOW sets propagate the end of input

---
 cfg-predict-sets/src/follow.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfg-predict-sets/src/follow.rs b/cfg-predict-sets/src/follow.rs
index 76ed1eb..a6ef9a7 100644
--- a/cfg-predict-sets/src/follow.rs
+++ b/cfg-predict-sets/src/follow.rs
@@ -55,6 +55,7 @@ impl FollowSets {
                         let followed = this.map.get_mut(&sym).unwrap();
                         let prev_cardinality = followed.len();
                         followed.extend(follow_set.iter().cloned());
+                        followed.has_none |= follow_set.has_none;
                         followed.sort_unstable();
                         followed.dedup();
                         changed |= prev_cardinality != followed.len();
-- 
2.43.0


From 9a86243c57d6a1199c2d47356262a5443271b1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:51 +0000
Subject: [PATCH 07/29] fix: first_set_for_string looks through nullable
 symbols and is empty only if all are nullable

---
 cfg-predict-sets/src/first.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cfg-predict-sets/src/first.rs b/cfg-predict-sets/src/first.rs
index d952190..326141c 100644
--- a/cfg-predict-sets/src/first.rs
+++ b/cfg-predict-sets/src/first.rs
@@ -50,23 +50,27 @@ impl FirstSets {
     /// Calculates a FIRST set for a string of symbols.
     pub fn first_set_for_string(&self, string: &[Symbol]) -> PerSymbolSetVal {
         let mut result = vec![];
+        let mut has_none = true;
         for &sym in string {
             if self.terminal_set[sym] {
                 result.push(sym);
-                break;
+                has_none = false;
             } else {
                 let first_set = self
                     .map
                     .get(&sym)
                     .expect("FIRST set not found in PerSymbolSets");
-                result.clone_from(&first_set.list);
-                if !result.is_empty() {
-                    break;
-                }
+                result.extend(first_set.list.iter().copied());
+                has_none = first_set.has_none;
+            }
+            if !has_none {
+                break;
             }
         }
+        result.sort_unstable();
+        result.dedup();
         PerSymbolSetVal {
-            has_none: result.is_empty(),
+            has_none,
             list: result,
         }
     }
-- 
2.43.0


From 2008ecc437af7ccc96bc0c95d6aae4717d8aba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:51 +0000
Subject: [PATCH 08/29] fix: the LL(1) table has a column for the end of input

---
 cfg-classify/src/ll.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cfg-classify/src/ll.rs b/cfg-classify/src/ll.rs
index 27dd247..fc90601 100644
--- a/cfg-classify/src/ll.rs
+++ b/cfg-classify/src/ll.rs
@@ -16,7 +16,8 @@ pub struct LlParseTable<'a> {
 #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq)]
 struct LlParseTableKey {
     nonterminal: Symbol,
-    terminal: Symbol,
+    /// `None` stands for the end of input.
+    terminal: Option<Symbol>,
 }
 
 /// Container for classifying nonterminals as LL(1) or context-free.
@@ -51,14 +52,20 @@ impl<'a> LlParseTable<'a> {
             for &terminal in &rhs_first_set[..] {
                 let key = LlParseTableKey {
                     nonterminal: rule.lhs,
-                    terminal,
+                    terminal: Some(terminal),
                 };
                 let entry = this.map.entry(key).or_default();
                 entry.push(rule_idx);
             }
             if rhs_first_set.has_none() {
                 let lhs_follow_set = follow.predict_sets().get(&rule.lhs).unwrap();
-                for &terminal in &lhs_follow_set[..] {
+                let end_of_input = if lhs_follow_set.has_none() {
+                    Some(None)
+                } else {
+                    None
+                };
+                let terminals = lhs_follow_set.iter().map(|&terminal| Some(terminal));
+                for terminal in terminals.chain(end_of_input) {
                     let key = LlParseTableKey {
                         nonterminal: rule.lhs,
                         terminal,
-- 
2.43.0


From f2f7e62e505bd4384964ec04227f2e1861c66064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:51 +0000
Subject: [PATCH 09/29] fix: SymbolSource::truncate never adds symbols

---
 cfg-symbol/src/source.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfg-symbol/src/source.rs b/cfg-symbol/src/source.rs
index 5d53d91..7df5d44 100644
--- a/cfg-symbol/src/source.rs
+++ b/cfg-symbol/src/source.rs
@@ -203,6 +203,9 @@ impl<T: SymbolPrimitive> SymbolSource<T> {
             new_len as u64 <= T::MAX as u64,
             "attempt to truncate to a length that exceeds the limit"
         );
+        if new_len >= self.num_syms() {
+            return;
+        }
         self.names.truncate(new_len);
         self.next_symbol = Symbol {
             n: NonZeroU32::new(new_len as u32 + 1)
-- 
2.43.0


From 24c3881f99f7eba576a96c6ac3e53956e7f06abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:51 +0000
Subject: [PATCH 10/29] fix: remove_unused_symbols keeps roots and drops
 removed symbols from the mapping

---
 cfg-symbol-bit-matrix/src/remap_symbols.rs | 23 +++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/cfg-symbol-bit-matrix/src/remap_symbols.rs b/cfg-symbol-bit-matrix/src/remap_symbols.rs
index 3980beb..65a22c6 100644
--- a/cfg-symbol-bit-matrix/src/remap_symbols.rs
+++ b/cfg-symbol-bit-matrix/src/remap_symbols.rs
@@ -33,12 +33,25 @@ impl<'a> Remap<'a> {
 
     /// Removes unused symbols.
     pub fn remove_unused_symbols(&mut self) {
-        let unused_symbols = self.grammar.unused_symbols();
+        let mut unused_symbols = self.grammar.unused_symbols();
+        // Roots stay, even those without any rules.
+        for &root in self.grammar.roots() {
+            unused_symbols.set(root, false);
+        }
+        for wrapped_root in self.grammar.wrapped_roots() {
+            unused_symbols.set(wrapped_root.root, false);
+            unused_symbols.set(wrapped_root.inner_root, false);
+            unused_symbols.set(wrapped_root.start_of_input, false);
+            unused_symbols.set(wrapped_root.end_of_input, false);
+        }
         self.reorder_symbols(|sym0, sym1| unused_symbols[sym0].cmp(&unused_symbols[sym1]));
-        let num_syms = self.grammar.num_syms();
-        self.grammar
-            .sym_source_mut()
-            .truncate(num_syms - unused_symbols.iter().count());
+        let num_used = self.grammar.num_syms() - unused_symbols.iter().count();
+        self.grammar.sym_source_mut().truncate(num_used);
+        // Removed symbols translate to nothing.
+        self.mapping.to_external.truncate(num_used);
+        for internal in &mut self.mapping.to_internal {
+            *internal = internal.filter(|sym| sym.usize() < num_used);
+        }
     }
 
     /// Remaps symbols to satisfy given ordering constraints. The argument
-- 
2.43.0


From e3b2d7e45296a2516995b416ed8ae812284f99a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:51 +0000
Subject: [PATCH 11/29] fix: pick_rhs picks in proportion to weights when the
 value equals a share boundary

---
 cfg-generate/src/weighted/weighted_rhs_by_lhs.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/cfg-generate/src/weighted/weighted_rhs_by_lhs.rs b/cfg-generate/src/weighted/weighted_rhs_by_lhs.rs
index f9bb179..eb5000e 100644
--- a/cfg-generate/src/weighted/weighted_rhs_by_lhs.rs
+++ b/cfg-generate/src/weighted/weighted_rhs_by_lhs.rs
@@ -75,15 +75,12 @@ impl<W: Weight> WeightedRhsByLhs<W> {
                 return &weighted_rhs_list.rhs_list[0].rhs[..];
             }
             let value = rng.generate(weighted_rhs_list.total_weight.into());
-            match weighted_rhs_list.rhs_list.binary_search_by(|weighted_rhs| {
-                weighted_rhs
-                    .weight
-                    .into()
-                    .partial_cmp(&value)
-                    .expect("invalid float")
-            }) {
-                Ok(idx) | Err(idx) => &weighted_rhs_list.rhs_list[idx.saturating_sub(1)].rhs[..],
-            }
+            // Each production's share begins with its cumulative weight. Pick the last
+            // one beginning at or before `value`, so that empty shares are never picked.
+            let idx = weighted_rhs_list
+                .rhs_list
+                .partition_point(|weighted_rhs| weighted_rhs.weight.into() <= value);
+            &weighted_rhs_list.rhs_list[idx.saturating_sub(1)].rhs[..]
         } else {
             &[]
         }
-- 
2.43.0


From 5205c024eae4cd3e430dfa1b1c2c2b15ffe8f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:51 +0000
Subject: [PATCH 12/29] fix: binarized rule histories trace to the true dot
 positions

---
 cfg-history/src/earley/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cfg-history/src/earley/mod.rs b/cfg-history/src/earley/mod.rs
index eb6bdf6..513cc05 100644
--- a/cfg-history/src/earley/mod.rs
+++ b/cfg-history/src/earley/mod.rs
@@ -221,19 +221,18 @@ impl History {
             [none; 3]
         } else {
             if is_top {
-                if full_len == 2 {
-                    [self.at_dot(0), none, self.at_dot(1)]
-                } else if full_len >= 3 {
+                if full_len >= 2 {
                     [
                         self.at_dot(0),
-                        self.at_dot(full_len - 2),
                         self.at_dot(full_len - 1),
+                        self.at_dot(full_len),
                     ]
                 } else {
                     [self.at_dot(0), none, none]
                 }
             } else {
-                [none, self.at_dot(full_len - 2 - height as usize), none]
+                // The part at `height` derives the first `height + 2` symbols.
+                [none, self.at_dot(height as usize + 1), none]
             }
         };
 
-- 
2.43.0


From 91b73e47b3db6a246db60e5123fda2f8a3cec75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:57 +0000
Subject: [PATCH 13/29] fix: minimal distances are shortest over all paths and
 handle unproductive symbols

---
 cfg-predict-distance/src/lib.rs | 155 ++++++++++----------------------
 1 file changed, 48 insertions(+), 107 deletions(-)

diff --git a/cfg-predict-distance/src/lib.rs b/cfg-predict-distance/src/lib.rs
index 7b9c76f..9a92a09 100644
--- a/cfg-predict-distance/src/lib.rs
+++ b/cfg-predict-distance/src/lib.rs
@@ -4,7 +4,6 @@
 #![deny(missing_docs)]
 
 use cfg_grammar::*;
-use cfg_symbol::Symbol;
 
 /// Calculation of minimum distance from one part of the grammar to another.
 /// Similar to multi-source shortest path search in a graph.
@@ -117,8 +116,12 @@ impl<'a> MinimalDistance<'a> {
         let mut dots = dots.to_vec();
         dots.sort_unstable();
         self.minimal_sentence_lengths();
-        self.immediate_minimal_distances(&dots[..], direction);
-        self.transitive_minimal_distances();
+        if direction.includes_forward() {
+            self.transitive_minimal_distances(&dots[..], false);
+        }
+        if direction.includes_backward() {
+            self.transitive_minimal_distances(&dots[..], true);
+        }
         self.distances()
     }
 
@@ -140,54 +143,16 @@ impl<'a> MinimalDistance<'a> {
             .rhs_closure_with_values(&mut self.min_length);
     }
 
-    fn immediate_minimal_distances(
-        &mut self,
-        dots: &[(usize, usize)],
-        direction: DistanceDirection,
-    ) {
-        // Calculates distances within rules.
-        for (idx, rule) in self.grammar.rules().enumerate() {
-            for (_rule_idx, dot_pos) in binary_search_span(dots, idx) {
-                debug_assert_eq!(idx, _rule_idx);
-                self.immediate_process_dot(idx, rule, dot_pos, direction);
-            }
-        }
-    }
-
-    fn immediate_process_dot(
-        &mut self,
-        rule_idx: usize,
-        rule: &CfgRule,
-        dot_pos: usize,
-        direction: DistanceDirection,
-    ) {
-        if direction.includes_forward() {
-            let (min, _) = self.update_rule_distances(0, &rule.rhs[..dot_pos], rule_idx, false);
-            set_min(&mut self.forward_distances.before[rule.lhs.usize()], min);
-        }
-        if direction.includes_backward() {
-            let (min, _) = self.update_rule_distances(0, &rule.rhs[dot_pos..], rule_idx, true);
-            set_min(&mut self.backward_distances.before[rule.lhs.usize()], min);
-        }
-    }
-
-    /// Calculates lengths of shortest paths that cross transitions (predictions and completions).
-    fn transitive_minimal_distances(&mut self) {
+    /// Calculates lengths of shortest paths, including those that cross transitions
+    /// (predictions and completions).
+    fn transitive_minimal_distances(&mut self, dots: &[(usize, usize)], reverse: bool) {
+        let grammar = self.grammar;
         let mut changed = true;
         while changed {
-            // Keep going for as long as any completion distances were lowered in the last pass.
+            // Keep going for as long as any distances were lowered in the last pass.
             changed = false;
-            for (idx, rule) in self.grammar.rules().enumerate() {
-                if let Some(distance) = self.forward_distances.after[rule.lhs.usize()] {
-                    let (_, changed_now) =
-                        self.update_rule_distances(distance, &rule.rhs[..], idx, false);
-                    changed |= changed_now;
-                }
-                if let Some(distance) = self.backward_distances.after[rule.lhs.usize()] {
-                    let (_, changed_now) =
-                        self.update_rule_distances(distance, &rule.rhs[..], idx, true);
-                    changed |= changed_now;
-                }
+            for (idx, rule) in grammar.rules().enumerate() {
+                changed |= self.update_rule_distances(dots, idx, rule, reverse);
             }
         }
     }
@@ -195,76 +160,52 @@ impl<'a> MinimalDistance<'a> {
     // Update distances in a rule.
     fn update_rule_distances(
         &mut self,
-        mut cur: u32,
-        rhs: &[Symbol],
+        dots: &[(usize, usize)],
         idx: usize,
+        rule: &CfgRule,
         reverse: bool,
-    ) -> (u32, bool) {
-        let last = if reverse {
-            for (dot, &sym) in rhs.iter().enumerate() {
-                set_min(&mut self.distances[idx][dot], cur);
-                cur = self.update_sym_distance(cur, sym, true);
-            }
-            rhs.len()
+    ) -> bool {
+        let Distances { before, after } = if reverse {
+            &mut self.backward_distances
         } else {
-            for (dot, &sym) in rhs.iter().enumerate().rev() {
-                set_min(&mut self.distances[idx][dot + 1], cur);
-                cur = self.update_sym_distance(cur, sym, false);
-            }
-            0
+            &mut self.forward_distances
         };
-        let changed = set_min(&mut self.distances[idx][last], cur);
-        (cur, changed)
-    }
-
-    fn update_sym_distance(&mut self, mut cur: u32, sym: Symbol, reverse: bool) -> u32 {
-        set_min(
-            if reverse {
-                &mut self.backward_distances.after[sym.usize()]
-            } else {
-                &mut self.forward_distances.after[sym.usize()]
-            },
-            cur,
-        );
-        cur += self.min_length[sym.usize()].unwrap();
-        if let Some(sym_predicted) = if reverse {
-            &self.backward_distances
-        } else {
-            &self.forward_distances
-        }
-        .before[sym.usize()]
-        {
-            cur.min(sym_predicted)
-        } else {
-            cur
+        let len = rule.rhs.len();
+        let mut changed = false;
+        // Distance to a chosen dot within this rule or the rules it predicts.
+        let mut inner = None;
+        // As above, or to a chosen dot somewhere past the completion of this rule.
+        let mut total = after[rule.lhs.usize()];
+        for i in 0..=len {
+            let dot = if reverse { i } else { len - i };
+            if i != 0 {
+                // Step over a symbol.
+                let sym = rule.rhs[if reverse { dot - 1 } else { dot }].usize();
+                changed |= set_min(&mut after[sym], total);
+                for cur in [&mut inner, &mut total] {
+                    let over = cur.zip(self.min_length[sym]).map(|(a, b)| a + b);
+                    *cur = before[sym];
+                    set_min(cur, over);
+                }
+            }
+            if dots.binary_search(&(idx, dot)).is_ok() {
+                inner = Some(0);
+                total = Some(0);
+            }
+            set_min(&mut self.distances[idx][dot], total);
         }
+        changed | set_min(&mut before[rule.lhs.usize()], inner)
     }
 }
 
 /// Updates a value with a minimum of two values.
-fn set_min(current: &mut Option<u32>, new: u32) -> bool {
-    if let Some(ref mut current) = *current {
-        if *current > new {
+fn set_min(current: &mut Option<u32>, new: Option<u32>) -> bool {
+    match (*current, new) {
+        (_, None) => false,
+        (Some(current), Some(new)) if current <= new => false,
+        _ => {
             *current = new;
             true
-        } else {
-            false
         }
-    } else {
-        *current = Some(new);
-        true
     }
 }
-
-fn binary_search_span(
-    dots: &[(usize, usize)],
-    idx: usize,
-) -> impl Iterator<Item = (usize, usize)> + '_ {
-    let dot_idx = match dots.binary_search(&(idx, 0)) {
-        Ok(pos) | Err(pos) => pos,
-    };
-    dots[dot_idx..]
-        .iter()
-        .copied()
-        .take_while(move |&(rule_id, _)| rule_id == idx)
-}
-- 
2.43.0


From 59d21fa7b1d709d7e4efcb1240e59173ffaac83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:55 +0000
Subject: [PATCH 14/29] fix: sequences with more than 2^31 repetitions do not
 overflow

---
 cfg-sequence/src/rewrite.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cfg-sequence/src/rewrite.rs b/cfg-sequence/src/rewrite.rs
index c3cea3e..1ee75cf 100644
--- a/cfg-sequence/src/rewrite.rs
+++ b/cfg-sequence/src/rewrite.rs
@@ -181,7 +181,7 @@ impl<'a> SequencesToProductions<'a> {
             }
             (_, 1, Some(end)) => {
                 // end >= 3
-                let pow2 = end.next_power_of_two() / 2;
+                let pow2 = largest_power_of_two_below(end);
                 let (seq1, block, seq2) = (
                     sequence.range(1..=pow2),
                     sequence.range(pow2..=pow2),
@@ -204,7 +204,7 @@ impl<'a> SequencesToProductions<'a> {
                 // to do infinity
                 let (seq1, seq2) = if Some(start) == end {
                     // A "block"
-                    let pow2 = start.next_power_of_two() / 2;
+                    let pow2 = largest_power_of_two_below(start);
                     (
                         sequence.range(pow2..=pow2),
                         sequence.range(start - pow2..=start - pow2),
@@ -226,3 +226,8 @@ impl<'a> SequencesToProductions<'a> {
         }
     }
 }
+
+/// Returns the largest power of two that is less than `n`, for `n >= 2`.
+fn largest_power_of_two_below(n: u32) -> u32 {
+    1 << (n - 1).ilog2()
+}
-- 
2.43.0


From f3412e2904ec0af94a67fed45eacb7f70f427125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:37 +0000
Subject: [PATCH 15/29] fix: loading basic BNF reports tokenizing errors
 instead of panicking

---
 cfg-load/src/basic.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cfg-load/src/basic.rs b/cfg-load/src/basic.rs
index 4854964..3c3b835 100644
--- a/cfg-load/src/basic.rs
+++ b/cfg-load/src/basic.rs
@@ -342,7 +342,12 @@ impl CfgLoadExt for Cfg {
             rparen,
         ] = bnf_grammar.symbols();
         let mut recognizer = Recognizer::new(&bnf_grammar);
-        let tokens = Lexer::tokenize(bnf).unwrap();
+        let tokens = Lexer::tokenize(bnf).map_err(|(line_no, col_no)| LoadError {
+            reason: "failed to tokenize".to_string(),
+            line: line_no as u32,
+            col: col_no as u32,
+            token: None,
+        })?;
         for (i, ch) in tokens.iter().enumerate() {
             let terminal = match ch {
                 Token::BnfOp => bnf_op,
-- 
2.43.0


From b9fa1747545a12c93ecbac352f36c3fbb9e8d3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:13 +0000
Subject: [PATCH 16/29] fix: character classes contain exactly their characters

---
 cfg-regexp-logic/src/lib.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/cfg-regexp-logic/src/lib.rs b/cfg-regexp-logic/src/lib.rs
index a98b61f..65d5a28 100644
--- a/cfg-regexp-logic/src/lib.rs
+++ b/cfg-regexp-logic/src/lib.rs
@@ -15,13 +15,14 @@ use regex_syntax::hir::{Class, Hir, HirKind};
 
 #[derive(PartialEq, PartialOrd, Eq, Ord, Debug, Clone)]
 pub struct LexerClasses {
+    /// Inclusive ranges of characters.
     set: BTreeSet<(char, char)>,
 }
 
 impl From<u8> for LexerClasses {
     fn from(value: u8) -> Self {
         LexerClasses {
-            set: iter::once((value as char, (value + 1) as char)).collect(),
+            set: iter::once((value as char, value as char)).collect(),
         }
     }
 }
@@ -29,7 +30,7 @@ impl From<u8> for LexerClasses {
 impl From<char> for LexerClasses {
     fn from(value: char) -> Self {
         LexerClasses {
-            set: iter::once((value, char::from_u32(value as u32 + 1).unwrap())).collect(),
+            set: iter::once((value, value)).collect(),
         }
     }
 }
@@ -53,11 +54,20 @@ impl From<Class> for LexerClasses {
 }
 
 impl LexerClasses {
+    /// Iterates over half-open ranges of characters. The range end of the last
+    /// character is that character.
     pub fn iter(&self) -> impl Iterator<Item = (char, char)> + use<'_> {
-        self.set.iter().copied()
+        self.set
+            .iter()
+            .map(|&(start, end)| (start, next_char(end).unwrap_or(end)))
     }
 }
 
+/// Returns the character that follows the given one, unless it is the last.
+fn next_char(ch: char) -> Option<char> {
+    (ch..=char::MAX).nth(1)
+}
+
 struct Translator {
     cfg: Cfg,
     class_map: LexerMap,
@@ -84,7 +94,7 @@ impl LexerMap {
         for (lexer_classes, &symbol) in &self.classes {
             for &class in &lexer_classes.set {
                 if class.0.is_ascii() {
-                    for ascii in class.0 as u32..=(class.1 as u32).min(256) {
+                    for ascii in class.0 as u32..=(class.1 as u32).min(127) {
                         result[ascii as usize].push(symbol);
                     }
                 }
@@ -95,10 +105,12 @@ impl LexerMap {
         for (lexer_classes, &symbol) in &self.classes {
             for &class in &lexer_classes.set {
                 ranges.entry(class.0).or_insert(vec![]).push((true, symbol));
-                ranges
-                    .entry(char::from_u32(class.1 as u32 + 1).unwrap())
-                    .or_insert(vec![])
-                    .push((false, symbol));
+                if let Some(after) = next_char(class.1) {
+                    ranges
+                        .entry(after)
+                        .or_insert(vec![])
+                        .push((false, symbol));
+                }
             }
         }
         let mut result = BTreeMap::new();
-- 
2.43.0


From d0140faf0738d2d0e8aabe5a235e689483897a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:17 +0000
Subject: [PATCH 17/29] fix: non-ASCII literals in regular expressions stand
 for characters, not bytes

---
 cfg-regexp-logic/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cfg-regexp-logic/src/lib.rs b/cfg-regexp-logic/src/lib.rs
index 65d5a28..51a6926 100644
--- a/cfg-regexp-logic/src/lib.rs
+++ b/cfg-regexp-logic/src/lib.rs
@@ -180,14 +180,19 @@ impl Translator {
         match hir.kind() {
             HirKind::Literal(lit) => {
                 let mut syms = vec![];
-                for &byte in &lit.0 {
+                // Literals are UTF-8 unless they came from a byte-oriented pattern.
+                let chars: Vec<char> = match std::str::from_utf8(&lit.0) {
+                    Ok(text) => text.chars().collect(),
+                    Err(_) => lit.0.iter().map(|&byte| byte as char).collect(),
+                };
+                for ch in chars {
                     syms.push(
                         *self
                             .class_map
                             .classes
-                            .entry(byte.into())
+                            .entry(ch.into())
                             .or_insert_with(|| {
-                                self.cfg.next_sym(Some(format!("__byte{}", byte).into()))
+                                self.cfg.next_sym(Some(format!("__byte{}", ch as u32).into()))
                             }),
                     );
                 }
-- 
2.43.0


From e90a7a542db421c0340e99bc205be09594b1a5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:21 +0000
Subject: [PATCH 18/29] fix: rich BNF may begin with a lexer block and have
 several of them

---
 cfg-load/src/advanced.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cfg-load/src/advanced.rs b/cfg-load/src/advanced.rs
index 2fa3097..01dab23 100644
--- a/cfg-load/src/advanced.rs
+++ b/cfg-load/src/advanced.rs
@@ -180,8 +180,15 @@ impl forest::Eval for Evaluator {
             }
             // start ::= start decl;
             (2, Value::Start(rules, None), Value::Lex(lex), ..) => Value::Start(rules, Some(lex)),
+            // start ::= start decl;
+            (2, Value::Start(rules, Some(mut first)), Value::Lex(lex), ..) => {
+                first.0.extend(lex.0);
+                Value::Start(rules, Some(first))
+            }
             // start ::= decl;
             (3, Value::Rules(rule), ..) => Value::Start(rule, None),
+            // start ::= decl;
+            (3, Value::Lex(lex), ..) => Value::Start(vec![], Some(lex)),
             // decl ::= rule;
             (4, Value::Rules(rules), ..) => Value::Rules(rules),
             // decl ::= lexer;
-- 
2.43.0


From bc6ba5d2b62bf6afe50a69bd59d9b251b71cba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:21 +0000
Subject: [PATCH 19/29] fix: random generation keeps to the retry limit and
 forgets undone lookaheads

---
 cfg-generate/src/weighted/random.rs | 42 ++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/cfg-generate/src/weighted/random.rs b/cfg-generate/src/weighted/random.rs
index 8cf3c4c..c023252 100644
--- a/cfg-generate/src/weighted/random.rs
+++ b/cfg-generate/src/weighted/random.rs
@@ -146,6 +146,7 @@ pub struct NegativeRule {
 
 struct BacktrackState<'a, R> {
     forbidden: &'a [char],
+    order: usize,
     rng: R,
     result_len: usize,
     prev_work: List<Symbol>,
@@ -173,6 +174,8 @@ impl Random for Cfg {
             .collect();
         let mut backtracking: BTreeMap<usize, Vec<BacktrackState<R>>> = BTreeMap::new();
         let mut backtracking_attempts: BTreeMap<usize, u64> = BTreeMap::new();
+        let mut num_states = 0;
+        let max_attempts = limit.map_or(256 * 64, |limits| limits.negative_rule_attempts);
         while let Some(&sym) = work.first() {
             work.drop_first_mut();
             if terminal_set[sym] {
@@ -185,22 +188,27 @@ impl Random for Cfg {
                         return Err(RandomGenError::LimitExceeded);
                     }
                 }
-                if let Some(back) = backtracking.get_mut(&string.len()) {
-                    for state in back.iter_mut() {
-                        if string.ends_with(state.forbidden) {
-                            *rng = state.rng.clone();
-                            string.truncate(string.len() - state.forbidden.len());
-                            result.truncate(state.result_len);
-                            work = state.prev_work.clone();
-                            let attempts = backtracking_attempts
-                                .get_mut(&string.len())
-                                .expect("bt.attempt not found");
-                            rng.mutate_start(*attempts);
-                            *attempts += 1;
-                            if *attempts > 256 * 64 {
-                                return Err(RandomGenError::NegativeRuleAttemptsExceeded);
-                            }
-                        }
+                let matching = backtracking.get(&string.len()).and_then(|back| {
+                    back.iter()
+                        .find(|state| string.ends_with(state.forbidden))
+                });
+                if let Some(state) = matching {
+                    *rng = state.rng.clone();
+                    string.truncate(string.len() - state.forbidden.len());
+                    result.truncate(state.result_len);
+                    work = state.prev_work.clone();
+                    // Forget the states recorded for the output we have just undone.
+                    let order = state.order;
+                    for back in backtracking.values_mut() {
+                        back.retain(|other| other.order <= order);
+                    }
+                    let attempts = backtracking_attempts
+                        .get_mut(&string.len())
+                        .expect("bt.attempt not found");
+                    rng.mutate_start(*attempts);
+                    *attempts += 1;
+                    if *attempts > max_attempts {
+                        return Err(RandomGenError::NegativeRuleAttemptsExceeded);
                     }
                 }
             } else if let Some(forbidden) = negative.get(&sym) {
@@ -210,10 +218,12 @@ impl Random for Cfg {
                     .or_default()
                     .push(BacktrackState {
                         forbidden: &forbidden[..],
+                        order: num_states,
                         rng: rng.clone(),
                         result_len: result.len(),
                         prev_work: work.clone(),
                     });
+                num_states += 1;
                 backtracking_attempts.entry(string.len()).or_insert(0);
             } else {
                 let rhs = weighted.pick_rhs(sym, rng);
-- 
2.43.0


From 75d2faba0e83732ec3585e7a25c5ee966229ad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:24 +0000
Subject: [PATCH 20/29] fix: random generation respects all negative rules of a
 symbol

---
 cfg-generate/src/weighted/random.rs | 37 ++++++++++++++++-------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/cfg-generate/src/weighted/random.rs b/cfg-generate/src/weighted/random.rs
index c023252..0b17fa6 100644
--- a/cfg-generate/src/weighted/random.rs
+++ b/cfg-generate/src/weighted/random.rs
@@ -168,10 +168,13 @@ impl Random for Cfg {
         let mut string = vec![];
         let mut terminal_set = SymbolBitSet::new();
         terminal_set.terminal(self);
-        let negative: BTreeMap<Symbol, Vec<char>> = negative_rules
-            .iter()
-            .map(|neg| (neg.sym, neg.chars.chars().collect()))
-            .collect();
+        let mut negative: BTreeMap<Symbol, Vec<Vec<char>>> = BTreeMap::new();
+        for neg in negative_rules {
+            negative
+                .entry(neg.sym)
+                .or_default()
+                .push(neg.chars.chars().collect());
+        }
         let mut backtracking: BTreeMap<usize, Vec<BacktrackState<R>>> = BTreeMap::new();
         let mut backtracking_attempts: BTreeMap<usize, u64> = BTreeMap::new();
         let mut num_states = 0;
@@ -211,18 +214,20 @@ impl Random for Cfg {
                         return Err(RandomGenError::NegativeRuleAttemptsExceeded);
                     }
                 }
-            } else if let Some(forbidden) = negative.get(&sym) {
-                // debug!("NEGATIVE: forbidden {:?} at {:?}", forbidden, string.len());
-                backtracking
-                    .entry(string.len() + forbidden.len())
-                    .or_default()
-                    .push(BacktrackState {
-                        forbidden: &forbidden[..],
-                        order: num_states,
-                        rng: rng.clone(),
-                        result_len: result.len(),
-                        prev_work: work.clone(),
-                    });
+            } else if let Some(forbidden_list) = negative.get(&sym) {
+                for forbidden in forbidden_list {
+                    // debug!("NEGATIVE: forbidden {:?} at {:?}", forbidden, string.len());
+                    backtracking
+                        .entry(string.len() + forbidden.len())
+                        .or_default()
+                        .push(BacktrackState {
+                            forbidden: &forbidden[..],
+                            order: num_states,
+                            rng: rng.clone(),
+                            result_len: result.len(),
+                            prev_work: work.clone(),
+                        });
+                }
                 num_states += 1;
                 backtracking_attempts.entry(string.len()).or_insert(0);
             } else {
-- 
2.43.0


From 8de5814c5f399ba52cab196c9647afc78ac83314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:57 +0000
Subject: [PATCH 21/29] fix: reading a symbol from binary data rejects zero
 instead of panicking

---
 cfg-symbol/src/symbol.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cfg-symbol/src/symbol.rs b/cfg-symbol/src/symbol.rs
index 4436b68..7fac104 100644
--- a/cfg-symbol/src/symbol.rs
+++ b/cfg-symbol/src/symbol.rs
@@ -132,9 +132,13 @@ mod miniserde_impls {
 #[cfg(feature = "nanoserde")]
 impl nanoserde::DeBin for Symbol<NonZeroU32> {
     fn de_bin(offset: &mut usize, bytes: &[u8]) -> Result<Self, nanoserde::DeBinErr> {
-        Ok(Symbol {
-            n: u32::de_bin(offset, bytes)?.try_into().unwrap(),
-        })
+        let start = *offset;
+        let num = u32::de_bin(offset, bytes)?;
+        match NonZeroU32::new(num) {
+            Some(n) => Ok(Symbol { n }),
+            // No symbol is stored as zero.
+            None => Err(nanoserde::DeBinErr::new(start, 4, 0)),
+        }
     }
 }
 
-- 
2.43.0


From 81a2871fd54b06d0a99f059f8d3c66141a9fcfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:49 +0000
Subject: [PATCH 22/29] fix: lengths and distances beyond u32 saturate instead
 of overflowing

---
 cfg-grammar/src/cfg.rs          | 7 +++----
 cfg-predict-distance/src/lib.rs | 4 +++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/cfg-grammar/src/cfg.rs b/cfg-grammar/src/cfg.rs
index a8656ce..d092944 100644
--- a/cfg-grammar/src/cfg.rs
+++ b/cfg-grammar/src/cfg.rs
@@ -606,10 +606,9 @@ impl Cfg {
                 .iter()
                 .map(|&rule_id| &self.rules[rule_id]);
             for rule in rules {
-                let maybe_work_value = rule
-                    .rhs
-                    .iter()
-                    .try_fold(0, |acc, elem| value[elem.usize()].map(|val| acc + val));
+                let maybe_work_value = rule.rhs.iter().try_fold(0u32, |acc, elem| {
+                    value[elem.usize()].map(|val| acc.saturating_add(val))
+                });
                 if let Some(work_value) = maybe_work_value {
                     if let Some(current_value) = value[rule.lhs.usize()] {
                         if current_value <= work_value {
diff --git a/cfg-predict-distance/src/lib.rs b/cfg-predict-distance/src/lib.rs
index 9a92a09..9ac014f 100644
--- a/cfg-predict-distance/src/lib.rs
+++ b/cfg-predict-distance/src/lib.rs
@@ -183,7 +183,9 @@ impl<'a> MinimalDistance<'a> {
                 let sym = rule.rhs[if reverse { dot - 1 } else { dot }].usize();
                 changed |= set_min(&mut after[sym], total);
                 for cur in [&mut inner, &mut total] {
-                    let over = cur.zip(self.min_length[sym]).map(|(a, b)| a + b);
+                    let over = cur
+                        .zip(self.min_length[sym])
+                        .map(|(a, b): (u32, u32)| a.saturating_add(b));
                     *cur = before[sym];
                     set_min(cur, over);
                 }
-- 
2.43.0


From c2f19f9602c6781bc73cde3ae85423cbd7397df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 23/29] fix: minimal distances do not depend on previous calls

---
 cfg-predict-distance/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cfg-predict-distance/src/lib.rs b/cfg-predict-distance/src/lib.rs
index 9ac014f..bf7245c 100644
--- a/cfg-predict-distance/src/lib.rs
+++ b/cfg-predict-distance/src/lib.rs
@@ -115,6 +115,7 @@ impl<'a> MinimalDistance<'a> {
     ) -> &[Vec<Option<u32>>] {
         let mut dots = dots.to_vec();
         dots.sort_unstable();
+        self.clear();
         self.minimal_sentence_lengths();
         if direction.includes_forward() {
             self.transitive_minimal_distances(&dots[..], false);
@@ -125,6 +126,15 @@ impl<'a> MinimalDistance<'a> {
         self.distances()
     }
 
+    /// Forgets the distances to the dots given in previous calls.
+    fn clear(&mut self) {
+        for rule_distances in &mut self.distances {
+            rule_distances.fill(None);
+        }
+        self.forward_distances = Distances::new(self.grammar.num_syms());
+        self.backward_distances = Distances::new(self.grammar.num_syms());
+    }
+
     fn minimal_sentence_lengths(&mut self) {
         // The distance for terminals is 1.
         let terminal_set = self.grammar.terminal_symbols();
-- 
2.43.0


From 763d88f426c928a1e16dfd6db5d074d077acfe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:32 +0000
Subject: [PATCH 24/29] fix: removing unused symbols does not panic when no
 symbol is used

---
 cfg-symbol-bit-matrix/src/remap_symbols.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cfg-symbol-bit-matrix/src/remap_symbols.rs b/cfg-symbol-bit-matrix/src/remap_symbols.rs
index 65a22c6..1212429 100644
--- a/cfg-symbol-bit-matrix/src/remap_symbols.rs
+++ b/cfg-symbol-bit-matrix/src/remap_symbols.rs
@@ -46,7 +46,12 @@ impl<'a> Remap<'a> {
         }
         self.reorder_symbols(|sym0, sym1| unused_symbols[sym0].cmp(&unused_symbols[sym1]));
         let num_used = self.grammar.num_syms() - unused_symbols.iter().count();
-        self.grammar.sym_source_mut().truncate(num_used);
+        if num_used == 0 {
+            // A source cannot be truncated to nothing.
+            *self.grammar.sym_source_mut() = SymbolSource::new();
+        } else {
+            self.grammar.sym_source_mut().truncate(num_used);
+        }
         // Removed symbols translate to nothing.
         self.mapping.to_external.truncate(num_used);
         for internal in &mut self.mapping.to_internal {
-- 
2.43.0


From ea222b39af5131f3f0060bd75c626d76cd2a86fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:32 +0000
Subject: [PATCH 25/29] fix: emptiness disregards exactly the rules that wrap
 the roots

---
 cfg-grammar/src/cfg.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cfg-grammar/src/cfg.rs b/cfg-grammar/src/cfg.rs
index d092944..b770613 100644
--- a/cfg-grammar/src/cfg.rs
+++ b/cfg-grammar/src/cfg.rs
@@ -662,10 +662,13 @@ impl Cfg {
         if self.wrapped_roots.is_empty() {
             self.rules.is_empty()
         } else {
-            let mut roots = self.roots.clone();
-            roots.sort();
-            self.rules()
-                .all(|rule| roots.binary_search(&rule.lhs).is_ok())
+            self.rules().all(|rule| {
+                self.wrapped_roots.iter().any(|wrapped_root| {
+                    // With a limit on the RHS length, the wrapping rule may be split in two.
+                    rule.lhs == wrapped_root.root
+                        || rule.rhs[..] == [wrapped_root.start_of_input, wrapped_root.inner_root]
+                })
+            })
         }
     }
 
-- 
2.43.0


From 6443ebb3587825d91b22c2fc7f62c766e1168d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:32 +0000
Subject: [PATCH 26/29] fix: weights in history are rounded, not truncated, to
 thousandths

---
 cfg-history/src/earley/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfg-history/src/earley/mod.rs b/cfg-history/src/earley/mod.rs
index 513cc05..66ab059 100644
--- a/cfg-history/src/earley/mod.rs
+++ b/cfg-history/src/earley/mod.rs
@@ -158,7 +158,7 @@ pub fn process_linked(linked_node: &LinkedHistoryNode, mut prev_history: History
             prev_history
         }
         &LinkedHistoryNode::Weight { weight, .. } => {
-            prev_history.weight = Some((weight * 1000f64) as u32);
+            prev_history.weight = Some((weight * 1000f64).round() as u32);
             prev_history
         }
         &LinkedHistoryNode::SequenceRhs { rhs } => {
-- 
2.43.0


From 8ebf603a791ebba4b740dd4bf8fe7fd2ade04c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:49 +0000
Subject: [PATCH 27/29] fix: rich BNF errors name the line and column, not the
 number of the token

---
 cfg-load/src/advanced.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/cfg-load/src/advanced.rs b/cfg-load/src/advanced.rs
index 01dab23..9bb3080 100644
--- a/cfg-load/src/advanced.rs
+++ b/cfg-load/src/advanced.rs
@@ -624,6 +624,12 @@ impl CfgLoadAdvancedExt for Cfg {
                 token: None,
             });
         };
+        // Spans count tokens from one.
+        let places: Vec<_> = tokens
+            .iter()
+            .map(|&(_, line, col)| (line as u32, col as u32))
+            .collect();
+        let place = |span: usize| places[span - 1];
         let result = recognizer
             .forest
             .evaluator(Evaluator { symbols, tokens })
@@ -657,10 +663,11 @@ impl CfgLoadAdvancedExt for Cfg {
                 let lhs = intern.get_or_intern(&rule.lhs[..]);
                 if is_lexer {
                     if lhs_in_parser.contains(&lhs) {
+                        let (line, col) = place(rule.span.0);
                         return Err(LoadError {
                             reason: format!("lhs shared between parser and lexer: {}", rule.lhs),
-                            line: rule.span.0 as u32,
-                            col: 1,
+                            line,
+                            col,
                             token: None,
                         });
                     }
@@ -680,10 +687,11 @@ impl CfgLoadAdvancedExt for Cfg {
                     .map(|fragment| match fragment {
                         Fragment::Call { func, arg, span } => {
                             if func != "Regexp" {
+                                let (line, col) = place(span.0);
                                 return Err(LoadError {
                                     reason: format!("expected 'Regexp', found '{}'", func),
-                                    line: span.0 as u32,
-                                    col: 1,
+                                    line,
+                                    col,
                                     token: None,
                                 });
                             }
@@ -704,11 +712,12 @@ impl CfgLoadAdvancedExt for Cfg {
                                     });
                                 }
                                 &Fragment::Lex { ref string, span } => {
+                                    let (line, col) = place(span);
                                     let (mut regexp_cfg, classes) = Cfg::from_regexp(string)
                                         .map_err(|err| LoadError {
                                             reason: err.to_string(),
-                                            line: span as u32,
-                                            col: 1,
+                                            line,
+                                            col,
                                             token: None,
                                         })?;
                                     let mut remap = Remap::new(&mut regexp_cfg);
-- 
2.43.0


From 5d32aa94f42c3837b16d65b1da2ab872b0867235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:47 +0000
Subject: [PATCH 28/29] fix: byte-driven random values stay below the limit

---
 cfg-generate/src/weighted/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfg-generate/src/weighted/random.rs b/cfg-generate/src/weighted/random.rs
index 0b17fa6..991d6b1 100644
--- a/cfg-generate/src/weighted/random.rs
+++ b/cfg-generate/src/weighted/random.rs
@@ -111,7 +111,7 @@ impl<I: Iterator<Item = u8> + Clone> GenRange for ByteSource<I> {
             Some(ahead) => ahead,
             None => self.0.next().unwrap_or(0),
         };
-        byte as f64 * limit / 255.0
+        byte as f64 * limit / 256.0
     }
 
     fn mutate_start(&mut self, attempt_number: u64) {
-- 
2.43.0


From 23ac30327d61e7a7257cb83545be61d7414f8ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:11 +0000
Subject: [PATCH 29/29] fix: basic BNF errors name the place of the unexpected
 token, not always 1:1

---
 cfg-load/src/basic.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cfg-load/src/basic.rs b/cfg-load/src/basic.rs
index 3c3b835..4e1044b 100644
--- a/cfg-load/src/basic.rs
+++ b/cfg-load/src/basic.rs
@@ -51,7 +51,7 @@ enum Value {
 
 struct Evaluator {
     symbols: [Symbol; 13],
-    tokens: Vec<Token>,
+    tokens: Vec<(Token, usize, usize)>,
 }
 
 impl forest::Eval for Evaluator {
@@ -75,7 +75,7 @@ impl forest::Eval for Evaluator {
             rparen,
         ] = self.symbols;
         if terminal == ident {
-            self.tokens[values as usize].ident()
+            self.tokens[values as usize].0.ident()
         } else {
             Value::None
         }
@@ -198,20 +198,24 @@ impl Token {
 }
 
 impl<'a> Lexer<'a> {
-    fn tokenize(bnf: &str) -> Result<Vec<Token>, (usize, usize)> {
+    fn tokenize(bnf: &str) -> Result<Vec<(Token, usize, usize)>, (usize, usize)> {
         let mut lexer = Lexer {
             chars: bnf.chars(),
             line_no: 1,
             col_no: 1,
         };
         let mut result = vec![];
+        let mut line_no = 1;
+        let mut col_no = 1;
         while let Some(token) = lexer.eat_token() {
             if let Token::Error(line, col) = token {
                 return Err((line, col));
             }
             if token != Token::Whitespace {
-                result.push(token);
+                result.push((token, line_no, col_no));
             }
+            line_no = lexer.line_no;
+            col_no = lexer.col_no;
         }
         Ok(result)
     }
@@ -348,7 +352,7 @@ impl CfgLoadExt for Cfg {
             col: col_no as u32,
             token: None,
         })?;
-        for (i, ch) in tokens.iter().enumerate() {
+        for (i, &(ref ch, line, col)) in tokens.iter().enumerate() {
             let terminal = match ch {
                 Token::BnfOp => bnf_op,
                 Token::Semicolon => semicolon,
@@ -373,8 +377,8 @@ impl CfgLoadExt for Cfg {
             if !success {
                 return Err(LoadError {
                     reason: "parse failed".to_string(),
-                    line: 1,
-                    col: 1,
+                    line: line as u32,
+                    col: col as u32,
                     token: None,
                 });
             }
-- 
2.43.0

