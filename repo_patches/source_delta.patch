From 2cc00b54fb0f9d963ad838acf53f7ba9b2bb220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 1/6] fix: successor and predecessor of characters next to the
 surrogate gap

'\u{d7ff}'.next() was '\0' and '\u{e000}'.prev() was '\u{ffff}', so splitting
overlapping ranges that end or start there produced reversed ranges (a panic)
or endless work.
---
 src/countable.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/countable.rs b/src/countable.rs
index e3a6b21..0b610b7 100644
--- a/src/countable.rs
+++ b/src/countable.rs
@@ -86,8 +86,20 @@ impl Countable for i64 {
 }
 
 impl Countable for char { 
-    fn next(&self) -> Self { char::from_u32((*self as u32)+1).unwrap_or('\u{0000}') }
-    fn prev(&self) -> Self { char::from_u32((*self as u32)-1).unwrap_or('\u{ffff}') }
+    fn next(&self) -> Self { 
+        match *self {
+            // There are no characters in the surrogate range (0xd800-0xdfff), so these two are neighbours
+            '\u{d7ff}' => '\u{e000}',
+            _          => char::from_u32((*self as u32)+1).unwrap_or('\u{0000}')
+        }
+    }
+
+    fn prev(&self) -> Self { 
+        match *self {
+            '\u{e000}' => '\u{d7ff}',
+            _          => char::from_u32((*self as u32)-1).unwrap_or('\u{ffff}')
+        }
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1e260d1bd1d10deb559a98d6dbd999ced46e90ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 2/6] fix: keep dropped split readers marked as dropped when
 clearing the buffer

Clearing the buffer moved the marker of a dropped reader down too, after which
it counted as a position: the buffer was no longer bounded by the other reader,
and dropping that one took close to 2^64 steps.
---
 src/split_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/split_reader.rs b/src/split_reader.rs
index ce96077..3697b5e 100644
--- a/src/split_reader.rs
+++ b/src/split_reader.rs
@@ -72,7 +72,8 @@ impl<'a, Symbol: Clone> SplitSymbolReaderBuffer<'a, Symbol> {
                     self.buffer.pop_front();
                 }
 
-                for pos in self.positions.iter_mut() {
+                // Readers that were dropped have no position to update
+                for pos in self.positions.iter_mut().filter(|pos| **pos < usize::max_value()) {
                     *pos -= lowest_pos;
                 }
             }
-- 
2.43.0


From 22fd35e655a5199361179a48e1303daafb791f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 3/6] fix: refuse to rewind a tape past its last cut

The check counted the symbols ahead of the read position too, so after a rewind
it was possible to go back beyond the cut or the start of the tape.
---
 src/tape.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tape.rs b/src/tape.rs
index afa621e..ca02c86 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -127,8 +127,15 @@ impl<Symbol: Clone+Sized, SourceReader: SymbolReader<Symbol>> Tape<Symbol, Sourc
     /// Moves backwards by num_symbols
     ///
     pub fn rewind(&mut self, num_symbols: usize) {
+        // Only symbols before the read position can be rewound over (the buffer may also contain symbols after it)
+        let available = if self.first_symbol_index > self.read_index {
+            (self.read_index + self.buffer.len()) - self.first_symbol_index
+        } else {
+            self.read_index - self.first_symbol_index
+        };
+
         // Do nothing if we're over the maximum length of the buffer
-        if num_symbols > self.buffer_size() {
+        if num_symbols > available {
             panic!("Can't rewind beyond the start of the tape");
         }
 
-- 
2.43.0


From 1059f233fbba84b46918aa3127c0bb89f78a7944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 4/6] fix: find every overlapping range in a map with overlaps

Looking up a range considered at most one range that starts before it, and
missed the others that reach into it.
---
 src/overlapping_symbols.rs | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/src/overlapping_symbols.rs b/src/overlapping_symbols.rs
index fc7b91b..0681d02 100644
--- a/src/overlapping_symbols.rs
+++ b/src/overlapping_symbols.rs
@@ -97,29 +97,12 @@ impl<Symbol: Ord+Clone+Countable> SymbolMap<Symbol> {
     /// Finds the ranges in this map that overlap the target ranges
     ///
     pub fn find_overlapping_ranges(&self, range: &SymbolRange<Symbol>) -> Vec<&SymbolRange<Symbol>> {
-        let mut result = vec![];
-
-        // Find the first range that matches (or the insertion position, which should be the first range wit a lowest value higher than the target range)
-        let existing = self.ranges.binary_search_by(|test_range| { SymbolMap::order_ranges(test_range, range) });
-
-        // Start returning values from here
-        let mut pos = match existing {
-            Ok(found_position) => found_position,
-            Err(insert_position) => insert_position
-        };
-
-        // Move backwards if the previous position overlaps this one
-        if pos > 0 && self.ranges[pos-1].highest >= range.lowest {
-            pos -= 1;
-        }
-
-        // TODO: can we construct a set of ranges such that one is missed here? Think maybe we can
-        while pos < self.ranges.len() && self.ranges[pos].lowest <= range.highest {
-            result.push(&self.ranges[pos]);
-            pos += 1;
-        }
-
-        result
+        // The ranges are ordered by their lowest symbol, so nothing after the first that starts beyond the target can overlap it.
+        // Any range before that might, as they are not ordered by their highest symbol.
+        self.ranges.iter()
+            .take_while(|test_range| test_range.lowest <= range.highest)
+            .filter(|test_range| test_range.highest >= range.lowest)
+            .collect()
     }
 
     ///
-- 
2.43.0


From 0fb59c7da852b6b06e19c000669f34e4a04032f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 5/6] fix: use the lowest output symbol when several are
 reachable through joins

The compiler only saw one output symbol per source state: for a state without
its own, one picked in hash order from the states joined to it. Which token was
reported then changed from one compilation to the next.
---
 src/dfa_compiler.rs  |  2 +-
 src/ndfa.rs          |  9 +++++++++
 src/state_machine.rs | 20 ++++++++++++++++++++
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/dfa_compiler.rs b/src/dfa_compiler.rs
index 87d65be..314418e 100644
--- a/src/dfa_compiler.rs
+++ b/src/dfa_compiler.rs
@@ -199,7 +199,7 @@ impl<InputSymbol: Ord+Clone, OutputSymbol: Ord+Clone, DfaType, Ndfa: StateMachin
                     transitions.push((symbol, DfaState::create(vec![state])));
                 }
 
-                if let Some(source_output) = self.ndfa.output_symbol_for_state(*source_state) {
+                for source_output in self.ndfa.output_symbols_for_state(*source_state) {
                     output.push(source_output.clone());
                 }
             }
diff --git a/src/ndfa.rs b/src/ndfa.rs
index 8c67231..2f7d669 100644
--- a/src/ndfa.rs
+++ b/src/ndfa.rs
@@ -195,6 +195,15 @@ impl<InputSymbol: Clone, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> f
             _ => result
         }
     }
+
+    ///
+    /// Retrieves the output symbols of a particular state and of every state that is joined to it
+    ///
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        self.get_join_closure(state).iter()
+            .filter_map(|joined| self.output_symbols.get(joined))
+            .collect()
+    }
 }
 
 impl<InputSymbol : Clone, OutputSymbol> MutableStateMachine<InputSymbol, OutputSymbol> for Ndfa<InputSymbol, OutputSymbol> {
diff --git a/src/state_machine.rs b/src/state_machine.rs
index 7deaaa6..08917f4 100644
--- a/src/state_machine.rs
+++ b/src/state_machine.rs
@@ -53,6 +53,16 @@ pub trait StateMachine<InputSymbol, OutputSymbol> {
     /// If a state is an accepting state, then this returns the output symbol that should be produced if this is the longest match
     ///
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol>;
+
+    ///
+    /// Returns all of the output symbols that could be produced for a state
+    ///
+    /// There can be more than one when several accepting states are joined to this one. They are returned in no particular
+    /// order.
+    ///
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        self.output_symbol_for_state(state).into_iter().collect()
+    }
 }
 
 ///
@@ -117,6 +127,11 @@ impl<InputSymbol, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> for Rc<S
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol> {
         (**self).output_symbol_for_state(state)
     }
+
+    #[inline]
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        (**self).output_symbols_for_state(state)
+    }
 }
 
 ///
@@ -137,4 +152,9 @@ impl<'a, InputSymbol, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> for
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol> {
         (**self).output_symbol_for_state(state)
     }
+
+    #[inline]
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        (**self).output_symbols_for_state(state)
+    }
 }
-- 
2.43.0


From 457e0ff21c8fbd477b947fce7ff6b199ca03324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 6/6] fix: keep the output symbols of token patterns that share
 an end state

Patterns that only match the empty string all end in state 0, so the last one
added replaced the output symbols of the others, whatever their order.
---
 src/tokenizer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 253b69e..1384c69 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -67,8 +67,10 @@ impl<InputSymbol: Clone+Ord+Countable+'static, OutputSymbol: Clone+Ord+'static>
             // Compile each pattern starting at state 0
             let end_state = pattern.compile(&mut ndfa, 0);
 
-            // Set the output for this pattern
-            ndfa.set_output_symbol(end_state, output.clone());
+            // Set the output for this pattern, using a state of its own as patterns can share an end state (eg, if they only match the empty string)
+            let accept_state = ndfa.count_states();
+            ndfa.join_states(end_state, accept_state);
+            ndfa.set_output_symbol(accept_state, output.clone());
         }
 
         // Clear out any overlapping ranges so we can build a valid DFA
-- 
2.43.0

