From e3c841c7bce5ec239af1c5a8e672eab4ae7f5e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 1/8] fix: next and prev for char skip over the surrogate code
 points

---
 src/countable.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/countable.rs b/src/countable.rs
index e3a6b21..6c0884b 100644
--- a/src/countable.rs
+++ b/src/countable.rs
@@ -86,8 +86,9 @@ impl Countable for i64 {
 }
 
 impl Countable for char { 
-    fn next(&self) -> Self { char::from_u32((*self as u32)+1).unwrap_or('\u{0000}') }
-    fn prev(&self) -> Self { char::from_u32((*self as u32)-1).unwrap_or('\u{ffff}') }
+    // There are no characters between U+D7FF and U+E000 (these code points are reserved for surrogates), so these are neighbours
+    fn next(&self) -> Self { if *self == '\u{d7ff}' { '\u{e000}' } else { char::from_u32((*self as u32)+1).unwrap_or('\u{0000}') } }
+    fn prev(&self) -> Self { if *self == '\u{e000}' { '\u{d7ff}' } else { char::from_u32((*self as u32)-1).unwrap_or('\u{ffff}') } }
 }
 
 #[cfg(test)]
-- 
2.43.0


From a568c015f370b343da42baed5b16f5fe8752c9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 2/8] fix: find_overlapping_ranges finds overlapping ranges
 that start well before the target

---
 src/overlapping_symbols.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/overlapping_symbols.rs b/src/overlapping_symbols.rs
index fc7b91b..5ff439f 100644
--- a/src/overlapping_symbols.rs
+++ b/src/overlapping_symbols.rs
@@ -108,12 +108,9 @@ impl<Symbol: Ord+Clone+Countable> SymbolMap<Symbol> {
             Err(insert_position) => insert_position
         };
 
-        // Move backwards if the previous position overlaps this one
-        if pos > 0 && self.ranges[pos-1].highest >= range.lowest {
-            pos -= 1;
-        }
+        // Any of the ranges before this position might be long enough to overlap this one (ranges are not ordered by where they end)
+        result.extend(self.ranges[..pos].iter().filter(|earlier| earlier.highest >= range.lowest));
 
-        // TODO: can we construct a set of ranges such that one is missed here? Think maybe we can
         while pos < self.ranges.len() && self.ranges[pos].lowest <= range.highest {
             result.push(&self.ranges[pos]);
             pos += 1;
-- 
2.43.0


From d00892da3663126cbef27ae262b042d6b310ac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 3/8] fix: rewinding a tape that is already rewound can't go
 beyond its start

---
 src/tape.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tape.rs b/src/tape.rs
index afa621e..23d8832 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -127,8 +127,14 @@ impl<Symbol: Clone+Sized, SourceReader: SymbolReader<Symbol>> Tape<Symbol, Sourc
     /// Moves backwards by num_symbols
     ///
     pub fn rewind(&mut self, num_symbols: usize) {
-        // Do nothing if we're over the maximum length of the buffer
-        if num_symbols > self.buffer_size() {
+        // Only the symbols between the start of the tape and the current read position can be read again
+        let available = if self.first_symbol_index > self.read_index {
+            (self.read_index + self.buffer.len()) - self.first_symbol_index
+        } else {
+            self.read_index - self.first_symbol_index
+        };
+
+        if num_symbols > available {
             panic!("Can't rewind beyond the start of the tape");
         }
 
-- 
2.43.0


From ac725744804012f208cef864d76f8997539548b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 4/8] fix: dropping both halves of a split reader does not loop
 over the marker for a dropped reader

---
 src/split_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/split_reader.rs b/src/split_reader.rs
index ce96077..51c9e9d 100644
--- a/src/split_reader.rs
+++ b/src/split_reader.rs
@@ -72,7 +72,8 @@ impl<'a, Symbol: Clone> SplitSymbolReaderBuffer<'a, Symbol> {
                     self.buffer.pop_front();
                 }
 
-                for pos in self.positions.iter_mut() {
+                // Readers that have been dropped stay at the maximum position
+                for pos in self.positions.iter_mut().filter(|pos| **pos < usize::max_value()) {
                     *pos -= lowest_pos;
                 }
             }
-- 
2.43.0


From 28fbaf289e114db93aff9ff279416cfc9414192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 5/8] fix: the lowest of all the outputs reachable through
 joins is used when outputs clash

---
 src/dfa_compiler.rs  |  2 +-
 src/ndfa.rs          |  7 +++++++
 src/state_machine.rs | 17 +++++++++++++++++
 src/tokenizer.rs     |  6 ++++--
 4 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/dfa_compiler.rs b/src/dfa_compiler.rs
index 87d65be..314418e 100644
--- a/src/dfa_compiler.rs
+++ b/src/dfa_compiler.rs
@@ -199,7 +199,7 @@ impl<InputSymbol: Ord+Clone, OutputSymbol: Ord+Clone, DfaType, Ndfa: StateMachin
                     transitions.push((symbol, DfaState::create(vec![state])));
                 }
 
-                if let Some(source_output) = self.ndfa.output_symbol_for_state(*source_state) {
+                for source_output in self.ndfa.output_symbols_for_state(*source_state) {
                     output.push(source_output.clone());
                 }
             }
diff --git a/src/ndfa.rs b/src/ndfa.rs
index 8c67231..eff1e2f 100644
--- a/src/ndfa.rs
+++ b/src/ndfa.rs
@@ -195,6 +195,13 @@ impl<InputSymbol: Clone, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> f
             _ => result
         }
     }
+
+    ///
+    /// Retrieves the output symbols of a state and of every state that it's joined to
+    ///
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        self.get_join_closure(state).iter().filter_map(|joined| self.output_symbols.get(joined)).collect()
+    }
 }
 
 impl<InputSymbol : Clone, OutputSymbol> MutableStateMachine<InputSymbol, OutputSymbol> for Ndfa<InputSymbol, OutputSymbol> {
diff --git a/src/state_machine.rs b/src/state_machine.rs
index 7deaaa6..aba91f1 100644
--- a/src/state_machine.rs
+++ b/src/state_machine.rs
@@ -53,6 +53,13 @@ pub trait StateMachine<InputSymbol, OutputSymbol> {
     /// If a state is an accepting state, then this returns the output symbol that should be produced if this is the longest match
     ///
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol>;
+
+    ///
+    /// Returns every output symbol that applies to a state (there can be several when the state is joined to other states)
+    ///
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        self.output_symbol_for_state(state).into_iter().collect()
+    }
 }
 
 ///
@@ -117,6 +124,11 @@ impl<InputSymbol, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> for Rc<S
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol> {
         (**self).output_symbol_for_state(state)
     }
+
+    #[inline]
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        (**self).output_symbols_for_state(state)
+    }
 }
 
 ///
@@ -137,4 +149,9 @@ impl<'a, InputSymbol, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> for
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol> {
         (**self).output_symbol_for_state(state)
     }
+
+    #[inline]
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        (**self).output_symbols_for_state(state)
+    }
 }
diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 253b69e..2eeb855 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -67,8 +67,10 @@ impl<InputSymbol: Clone+Ord+Countable+'static, OutputSymbol: Clone+Ord+'static>
             // Compile each pattern starting at state 0
             let end_state = pattern.compile(&mut ndfa, 0);
 
-            // Set the output for this pattern
-            ndfa.set_output_symbol(end_state, output.clone());
+            // Set the output for this pattern (in a state of its own, as patterns that match nothing all end at state 0)
+            let accept_state = ndfa.count_states();
+            ndfa.join_states(end_state, accept_state);
+            ndfa.set_output_symbol(accept_state, output.clone());
         }
 
         // Clear out any overlapping ranges so we can build a valid DFA
-- 
2.43.0


From 529c0037722af92eb5ae4021267e1fdb0fc564d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 6/8] fix: the output reported for a joined state does not
 depend on a random hash order

---
 src/ndfa.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ndfa.rs b/src/ndfa.rs
index eff1e2f..55773e8 100644
--- a/src/ndfa.rs
+++ b/src/ndfa.rs
@@ -35,7 +35,7 @@
 //!
 
 use std::collections::HashMap;
-use std::collections::HashSet;
+use std::collections::BTreeSet;
 
 use super::state_machine::*;
 use super::overlapping_symbols::*;
@@ -75,11 +75,11 @@ impl<InputSymbol: Clone, OutputSymbol> Ndfa<InputSymbol, OutputSymbol> {
     /// Retrieves the complete set of states whose transitions should be returned due to joining for a given state
     ///
     #[inline]
-    fn get_join_closure(&self, state: StateId) -> HashSet<StateId> {
+    fn get_join_closure(&self, state: StateId) -> BTreeSet<StateId> {
         // TODO: this is a great use-case for the BitSet collection (available in the nightlies)
 
         // The result is initially empty. We'll add the initial state in the first pass
-        let mut result: HashSet<StateId> = HashSet::new();
+        let mut result: BTreeSet<StateId> = BTreeSet::new();
 
         // Add in any joined states
         let mut stack = vec![];
-- 
2.43.0


From 7d22016e8071156501610926f88744d91a8664af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 7/8] fix: the tokenizer lets go of input that was skipped

---
 src/tokenizer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 2eeb855..b6525b1 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -151,7 +151,12 @@ impl<'a, InputSymbol: Clone+Ord+Countable, OutputSymbol: Clone+Ord+'static, Read
     /// Skips an input symbol (returning the symbol that was skipped)
     ///
     pub fn skip_input(&mut self) -> Option<InputSymbol> {
-        self.tape.next_symbol()
+        let skipped = self.tape.next_symbol();
+
+        // Won't try to match anything before this position
+        self.tape.cut();
+
+        skipped
     }
 
     ///
-- 
2.43.0


From 9af2af8516317f6161d0733648e4f81cc9c220a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 8/8] fix: a DFA's description counts the end marker of its
 state table as a state

---
 src/symbol_range_dfa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol_range_dfa.rs b/src/symbol_range_dfa.rs
index 1e8c023..5aaafcf 100644
--- a/src/symbol_range_dfa.rs
+++ b/src/symbol_range_dfa.rs
@@ -187,7 +187,7 @@ impl<InputSymbol: Ord, OutputSymbol> SymbolRangeDfa<InputSymbol, OutputSymbol> {
         let accept_size         = size_of::<Option<OutputSymbol>>() * self.accept.len();
         let total_size          = state_size + transitions_size + accept_size;
 
-        format!("SymbolRangeDfa: {} states, {} total transitions. {} bytes", self.states.len(), self.transitions.len(), total_size)
+        format!("SymbolRangeDfa: {} states, {} total transitions. {} bytes", self.accept.len(), self.transitions.len(), total_size)
     }
 }
 
-- 
2.43.0

