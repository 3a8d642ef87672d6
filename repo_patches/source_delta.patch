From 72f751a517a5dc9982dd3668504c799cb9269134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 01/23] fix: build alternatives that don't end in a single
 transition

`build_states` only repointed the last state of each alternative, which is
wrong if the alternative is left from several states (nested alternatives,
substrings), or if it has no states at all (`a{0}|b`): `((a|b)|c)d` did not
match `ad`. Close each alternative with its own epsilon state instead.
---
 noodle/src/expression.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index ba1212a..a69c595 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -98,17 +98,18 @@ impl Expression {
                         .epsilon_states_bitset_mut()
                         .insert(next_index);
                     Self::build_states(alt, states);
-                    end_indexes.push(states.len() - 1);
+                    // Close each alternative with its own epsilon state. An alternative may be
+                    // left from any number of its states (or have no states at all), so it isn't
+                    // enough to repoint the last one
+                    end_indexes.push(states.len());
+                    states.push(State::new());
                 }
                 let next_index = states.len();
                 for end_index in end_indexes {
-                    // Repoint the terminal states to the true success state
-                    let mut epsilon_states = states[end_index].epsilon_states_bitset_mut();
-                    if epsilon_states.contains(end_index + 1) {
-                        epsilon_states.remove(end_index + 1);
-                        epsilon_states.insert(next_index);
-                    }
-                    states[end_index].next_state = next_index;
+                    // Point the terminal states to the true success state
+                    states[end_index]
+                        .epsilon_states_bitset_mut()
+                        .insert(next_index);
                 }
             }
             parser::Ast::Sequence(terms) => {
-- 
2.43.0


From 638fd98a3bd86ee81a6a48e1ac451c8ba5ece553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 02/23] fix: build substrings whose terms don't end in a single
 transition

Same as for alternatives: only the last state of each term was connected to
the end of the substring. Also, a substring of a single term did not match
the empty string, unlike a substring of several terms.
---
 noodle/src/expression.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index a69c595..e49c7d1 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -126,25 +126,20 @@ impl Expression {
                         .epsilon_states_bitset_mut()
                         .insert(next_index);
                     Self::build_states(term, states);
-                    end_indexes.push(states.len() - 1);
+                    // Close each term with its own epsilon state, see `Ast::Alternatives`
+                    end_indexes.push(states.len());
+                    states.push(State::new());
                 }
                 let next_index = states.len();
+                // The substring can be empty
+                states[initial_len]
+                    .epsilon_states_bitset_mut()
+                    .insert(next_index);
                 for end_index in end_indexes {
-                    // Add the true success state to the terminal states
+                    // Continue with the next term, or stop here
                     let mut epsilon_states = states[end_index].epsilon_states_bitset_mut();
-                    if epsilon_states.contains(end_index + 1) {
-                        epsilon_states.insert(next_index);
-                    }
-                    // Rather than have the `char_bitset` edge point to two states,
-                    // we add a epsilon transition onto the `next_state`
-                    if states[end_index].char_bitset != CharBitset::EMPTY {
-                        let next_state = states[end_index].next_state;
-                        if next_state != next_index {
-                            states[next_state]
-                                .epsilon_states_bitset_mut()
-                                .insert(next_index);
-                        }
-                    }
+                    epsilon_states.insert(end_index + 1);
+                    epsilon_states.insert(next_index);
                 }
             }
             parser::Ast::Repetition {
-- 
2.43.0


From 5a92f065b67e96830b8a88344d2462e28d5c44a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 03/23] fix: remap states correctly when pruning redundant
 states

`prune_epsilon_pairs` could delete a state twice, delete the success state
(which must be the last one) and did not shift the index of the states that
replaced the deleted ones, so `(a?|b?)c` or `(a{,2}|.)` gave wrong matches or
panicked. Delete the earlier of the two equivalent states, and shift the
indexes afterwards.
---
 noodle/src/expression.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index e49c7d1..f87381e 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -337,9 +337,6 @@ impl Expression {
             let mut state_map_from: Vec<Option<usize>> = (0..states_len).map(Some).collect();
             let mut deleted: Vec<usize> = vec![];
             for (i, state) in states.iter().enumerate() {
-                // Shift the state index down by the number of states before it that were deleted
-                state_map[i] -= deleted.iter().filter(|&d| *d < i).count();
-
                 // Don't attempt to collapse the first state
                 // Removing it would add a lot of complexity, with little benefit
                 if i == 0 {
@@ -357,24 +354,30 @@ impl Expression {
                 let mut similar_states = state.epsilon_states.clone();
                 similar_states.borrow_mut().remove(i);
                 for (i2, state2) in states.iter().enumerate() {
-                    // We're doing a "triangle search", and only comparing `states[i] ~ states[i2]` where `i > i2`
+                    // We're doing a "triangle search", and only comparing `states[i] ~ states[i2]` where `i < i2`
+                    // (So the last state, which is the success state, is never deleted)
                     if i2 <= i {
                         continue;
                     }
                     if similar_states == state2.epsilon_states {
-                        deleted.push(i2);
-                        state_map[i2] = i;
-                        state_map_from[i2] = None;
-                        state_map_from.iter_mut().for_each(|s| {
-                            if *s == Some(i) {
-                                *s = Some(i2)
-                            }
-                        });
+                        deleted.push(i);
+                        state_map[i] = i2;
+                        state_map_from[i] = None;
                         break;
                     }
                 }
             }
 
+            // Shift the state indexes down by the number of states before them that were deleted.
+            // Deleted states were replaced by a later state, which may have been deleted as well
+            for i in (0..states_len).rev() {
+                if state_map_from[i].is_some() {
+                    state_map[i] -= deleted.iter().filter(|&d| *d < i).count();
+                } else {
+                    state_map[i] = state_map[state_map[i]];
+                }
+            }
+
             // Re-create the state table, pruning the `deleted` states
             // - `state_map_from[i] == None` iff `i` is in `deleted` (and the state is pruned)
             // - Otherwise, replace the state at `i` with the state at index `state_map_from[i]`
-- 
2.43.0


From c187804cab9031c378e72b6fe13491412b4f1887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 04/23] fix: only collapse a char state if it is reachable
 through one state

Anything that could reach `char_state` gained the epsilon transitions of
`eps_state` when the two were collapsed: `(a(b{,2}a):^)*` matched `aab`.
---
 noodle/src/expression.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index f87381e..919f486 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -278,6 +278,13 @@ impl Expression {
                         .contains(char_state.next_state)
                     // ...but point to at most: itself, char_state, and char_state.next_state's epsilons
                     && eps_state.epsilon_states.borrow().is_subset(&allowed_epsilons.borrow())
+                    // char_state can only be reached through eps_state
+                    && states.iter().enumerate().all(|(i, state)| {
+                        state.next_state != char_index
+                            && (i == char_index
+                                || !state.epsilon_states.borrow().contains(char_index)
+                                || state.epsilon_states.borrow().contains(eps_index))
+                    })
             }
 
             // RUNTIME: O(states^2)
-- 
2.43.0


From e20e4833fe6bc1ee736dd9cb3264374a016695d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 05/23] fix: account for every letter missing from a fuzzy
 match

With fuzzy matching, a letter could only be inserted directly before a letter
that matches exactly, so `hello !1` did not match `hell` and `abxyc !2` did
not match `abc`. Expand each row of the table by the inserted letters.
---
 noodle/src/expression.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index 919f486..a071689 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -484,6 +484,7 @@ impl Expression {
             let char_bitset = CharBitset::from(chr);
             let mut all_states_are_empty = true;
 
+            self.fill_insertions(&mut transition_table[char_index], n_start_states);
             let (lower_table, upper_table) = transition_table.split_at_mut(char_index + 1);
 
             if (self.ignore_word_boundaries && chr == Char::WORD_END)
@@ -525,6 +526,7 @@ impl Expression {
 
                 // For a fuzzy match, expand `next_state_table[fi+1]` by adding all states
                 // reachable from `state_table[f]` *but* with a 1-character change to `chars`
+                // (Inserted characters are already accounted for, see `fill_insertions`)
                 // RUNTIME: O(fuzz * states^2)
                 let mut fuzz_superset = BitSet1D::new((), self.states.len());
                 for fuzz_index in 0..self.fuzz {
@@ -546,11 +548,6 @@ impl Expression {
                     let change_set = change_set_group.slice(());
                     fuzzed_next_state_transitions.union_with(change_set);
 
-                    // Insertion
-                    let insertion_set_group = self.char_transitions(char_bitset, change_set);
-                    let insertion_set = insertion_set_group.slice(());
-                    fuzzed_next_state_transitions.union_with(insertion_set);
-
                     // Optimization: discard the states we can get to with less fuzz
                     fuzzed_next_state_transitions.difference_with(fuzz_superset.borrow());
                     fuzz_superset
@@ -562,9 +559,28 @@ impl Expression {
                 return char_index;
             }
         }
+        self.fill_insertions(&mut transition_table[chars.len()], n_start_states);
         chars.len()
     }
 
+    /// For a fuzzy match, expand `table[from][fuzz+1]` by adding all states reachable from
+    /// `table[from][fuzz]` by inserting a letter which is missing from the word
+    ///
+    /// `RUNTIME: O(fuzz * states^3)`
+    fn fill_insertions(&self, table: &mut BitSet3D, n_start_states: usize) {
+        for state_index in 0..n_start_states {
+            for fuzz_index in 0..self.fuzz {
+                let insertion_set = self.char_transitions(
+                    CharBitset::LETTERS,
+                    table.slice((state_index, fuzz_index)),
+                );
+                table
+                    .slice_mut((state_index, fuzz_index + 1))
+                    .union_with(insertion_set.borrow());
+            }
+        }
+    }
+
     /// Given a set of starting states `start_states`, calculate the set of states reachable by
     /// consuming exactly one character from `char_bitset` (followed by epsilon transition(s))
     ///
-- 
2.43.0


From 996658e3d360058cd60c1d075b3caa0622b942dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 06/23] fix: don't underflow on a repetition with max < min

`a{5,3}` overflowed in `max - min`, which panicked (or, without overflow
checks, matched one to five copies). It can't match anything.
---
 noodle/src/expression.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index a071689..e2bf321 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -147,6 +147,14 @@ impl Expression {
                 min: 0,
                 max: Some(0),
             } => {}
+            parser::Ast::Repetition {
+                term: _,
+                min,
+                max: Some(max),
+            } if max < min => {
+                // This can't match anything: add a state that can't be left
+                states.push(State::new());
+            }
             parser::Ast::Repetition {
                 term,
                 min: 1,
-- 
2.43.0


From a2528cf23d8ccb0b848e53fec5cc3776515dc4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 07/23] fix: expand anagrams inside of repetitions

An anagram inside of a repetition (`<ab>?`) was not expanded, and panicked as
`unreachable!()` when the expression was built.
---
 noodle/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index dbe938b..8261b46 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -219,10 +219,10 @@ impl QueryAst {
                     nodes.iter_mut().for_each(|n| visit(n, action))
                 }
                 Ast::Repetition {
-                    term: _,
+                    term,
                     min: _,
                     max: _,
-                } => (),
+                } => visit(term, action),
                 Ast::Anagram { kind: _, bank: _ } => action(node),
             }
         }
-- 
2.43.0


From 89ef2d860ec717861ec7334395871316ae87599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 08/23] fix: ignore the case of letter ranges

`[A-z]` included the symbols between 'Z' and 'a', which are spaces and
punctuation, and `[a-C]` was empty.
---
 noodle/src/words.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/noodle/src/words.rs b/noodle/src/words.rs
index c57b864..2974093 100644
--- a/noodle/src/words.rs
+++ b/noodle/src/words.rs
@@ -78,7 +78,8 @@ impl CharBitset {
 
     pub fn from_range(low: char, high: char) -> Self {
         let mut x = 0;
-        for c in low..=high {
+        // Letters are case-insensitive, don't include the symbols between 'Z' and 'a'
+        for c in low.to_ascii_lowercase()..=high.to_ascii_lowercase() {
             x |= CharBitset::from(c).0;
         }
         CharBitset(x)
-- 
2.43.0


From ceffe18f96e2da81871b49e0b10ce69bb0b56080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 09/23] fix: don't panic while parsing numbers that don't fit
 in an usize

`a{99999999999999999999}` indexed into an empty list of numbers, and
`<ab+18446744073709551615>` overflowed.
---
 noodle/src/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 8261b46..6c056fc 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -350,8 +350,8 @@ impl QueryAst {
                         },
                         AnagramKind::TransAdd(a) => Ast::Repetition {
                             term: Box::new(Ast::CharClass(CharBitset::LETTERS)),
-                            min: total_length + a,
-                            max: Some(total_length + a),
+                            min: total_length.saturating_add(a),
+                            max: Some(total_length.saturating_add(a)),
                         },
                     }
                 }
@@ -472,12 +472,12 @@ impl fmt::Display for Ast {
 }
 
 /// Given a (flat) list of parsed `pairs`, parse every `Rule::number` into a `usize` and return
-/// them in a `Vec<usize>`.
+/// them in a `Vec<usize>`. (Numbers that don't fit are clamped to `usize::MAX`)
 fn parse_numbers(pairs: Pairs<'_, Rule>) -> Vec<usize> {
     pairs
         .filter_map(|p| {
             if p.as_rule() == Rule::number {
-                p.as_str().parse().ok()
+                Some(p.as_str().parse().unwrap_or(usize::MAX))
             } else {
                 None
             }
@@ -572,7 +572,7 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
         )),
         Rule::number => {
             let dot = Ast::CharClass(CharBitset::LETTERS);
-            let n: usize = pair.as_str().parse().unwrap();
+            let n: usize = pair.as_str().parse().unwrap_or(usize::MAX);
             Some(Ast::Sequence(vec![
                 Ast::Repetition {
                     term: Box::new(dot),
-- 
2.43.0


From 6c46e6eac0432b7480db2af4bc8c2013b1bd79dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 10/23] fix: refuse expressions which have too many states

The sets of states used to build the NFA hold `MAX_SET_SIZE` elements, and are
not bounds-checked: `a{,20000}` wrote out of bounds. Likewise, the size of the
transition table could overflow for a large `fuzz`.
---
 noodle/src/expression.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index e2bf321..6f9f701 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -58,6 +58,14 @@ impl Expression {
         let ignore_word_boundaries = !ast_root.options.explicit_word_boundaries.unwrap_or(false);
         let ignore_punctuation = !ast_root.options.explicit_punctuation.unwrap_or(false);
 
+        // The sets of states are not bounds-checked, and can't hold more than this
+        assert!(
+            Self::max_states_len(&ast_root.root) < MAX_SET_SIZE,
+            "expression is too complex"
+        );
+        let fuzz = ast_root.options.fuzz.unwrap_or(0);
+        assert!(fuzz < MAX_SET_SIZE, "expression is too fuzzy");
+
         let mut states = vec![];
         Self::build_states(&ast_root.root, &mut states);
         // Add a "success" end state (this may not be needed?) that absorbs word boundaries
@@ -69,7 +77,7 @@ impl Expression {
 
             ignore_word_boundaries,
             ignore_punctuation,
-            fuzz: ast_root.options.fuzz.unwrap_or(0),
+            fuzz,
         };
         Self::optimize_states(&mut expr.states);
 
@@ -80,6 +88,26 @@ impl Expression {
         self.states.len()
     }
 
+    /// Upper bound for the number of states that `build_states` adds for the `ast`
+    fn max_states_len(ast: &parser::Ast) -> usize {
+        match ast {
+            parser::Ast::CharClass(_) => 1,
+            parser::Ast::Alternatives(terms)
+            | parser::Ast::Sequence(terms)
+            | parser::Ast::Substring(terms) => terms.iter().fold(1, |len: usize, term| {
+                len.saturating_add(Self::max_states_len(term))
+                    .saturating_add(1)
+            }),
+            parser::Ast::Repetition { term, min, max } => {
+                let repeats = std::cmp::max(1, std::cmp::max(*min, max.unwrap_or(*min)));
+                Self::max_states_len(term)
+                    .saturating_mul(repeats)
+                    .saturating_add(2)
+            }
+            parser::Ast::Anagram { kind: _, bank: _ } => unreachable!(),
+        }
+    }
+
     /// Extend `states` with the NFA representation of the `ast`
     /// The first new state is the "start" state, and the last added
     /// state must have a "success" transition to the next state.
-- 
2.43.0


From 0ec42b2300bde34b1aa2bfdceceff129e85cefdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 11/23] hook: expose the internal modules with --cfg
 noodle_verif

---
 noodle/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/noodle/src/lib.rs b/noodle/src/lib.rs
index 3906dce..1906103 100644
--- a/noodle/src/lib.rs
+++ b/noodle/src/lib.rs
@@ -1,10 +1,20 @@
+#![allow(unexpected_cfgs)]
 extern crate pest;
 #[macro_use]
 extern crate pest_derive;
 
+#[cfg(not(noodle_verif))]
 mod bitset;
-pub mod expression;
+#[cfg(not(noodle_verif))]
 mod matcher;
+
+// Verification hook: make the internal modules accessible (`RUSTFLAGS="--cfg noodle_verif"`)
+#[cfg(noodle_verif)]
+pub mod bitset;
+#[cfg(noodle_verif)]
+pub mod matcher;
+
+pub mod expression;
 pub mod parser;
 pub mod query;
 pub mod words;
-- 
2.43.0


From 7ff66e4884b80bb984332012af013b71bd3d3fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 12/23] fix: don't divide by zero when reporting progress

`QueryEvaluator::progress` panicked for an empty wordlist, and if there is only
one word that can be used in a phrase.
---
 noodle/src/matcher.rs | 2 +-
 noodle/src/query.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle/src/matcher.rs b/noodle/src/matcher.rs
index 71a7ca8..ec430dc 100644
--- a/noodle/src/matcher.rs
+++ b/noodle/src/matcher.rs
@@ -162,7 +162,7 @@ impl<'word> WordMatcher<'word> {
             "Single-word matches: {}/{} ({}%)",
             self.word_index,
             wordlist.len(),
-            100 * self.word_index / wordlist.len()
+            100 * self.word_index / wordlist.len().max(1)
         )
     }
 
diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index ab0819d..708a71f 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -206,7 +206,7 @@ impl<'word> QueryEvaluator<'word> {
                     phase.depth,
                     estimate,
                     initial_search_estimate,
-                    100 * estimate / initial_search_estimate,
+                    100 * estimate / (*initial_search_estimate).max(1),
                     phase.tranche,
                 )
             }
-- 
2.43.0


From 99f49fdfc9176fd21155a2f6c689cdbcc880989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 13/23] fix: don't drop a match which is the very last phrase

---
 noodle/src/query.rs | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index 708a71f..6ce75bd 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -193,7 +193,10 @@ impl<'word> QueryEvaluator<'word> {
                 initial_search_estimate,
                 ..
             } => {
-                let phase = &search_queue[0];
+                let phase = match search_queue.first() {
+                    Some(phase) => phase,
+                    None => return "Done".to_string(),
+                };
                 let step_index = &search_layers[0].word_index;
 
                 let estimate = search_estimate(search_queue);
@@ -502,7 +505,18 @@ impl<'word> QueryEvaluator<'word> {
                 let mut deadline_check_count = 0;
                 let mut result = None;
                 loop {
-                    let search_phase = &search_queue[0];
+                    let search_phase = match search_queue.first() {
+                        Some(search_phase) => search_phase,
+                        None => {
+                            // If the depth queue is empty, we're done for good!
+                            // Signal that the iterator is exhausted
+                            self.phase = QueryPhase::Done;
+                            return QueryResponse::Complete(format!(
+                                "Complete, found all {} phrases up to {} words",
+                                self.results_count, self.search_depth_limit
+                            ));
+                        }
+                    };
                     let (lower_layers, upper_layers) = search_layers.split_at_mut(*layer_index + 1);
                     let prev_layer = &mut lower_layers[*layer_index];
                     let next_layer = &mut upper_layers[0];
@@ -592,22 +606,11 @@ impl<'word> QueryEvaluator<'word> {
                                         });
                                     }
 
-                                    if search_queue.is_empty() {
-                                        // If the depth queue is empty, we're done for good!
-                                        // Signal that the iterator is exhausted
-                                        self.phase = QueryPhase::Done;
-                                        return QueryResponse::Complete(format!(
-                                            "Complete, found all {} phrases up to {} words",
-                                            self.results_count, self.search_depth_limit
-                                        ));
-                                    } else {
-                                        // Otherwise, restart at the first layer with the new depth
-                                        *phase_had_partial_match = false;
-                                        search_layers[*layer_index].word_index = 0;
-                                        search_layers[*layer_index].max_tranche =
-                                            wordlist[0].tranche;
-                                        break;
-                                    }
+                                    // Restart at the first layer with the new depth (if any)
+                                    *phase_had_partial_match = false;
+                                    search_layers[*layer_index].word_index = 0;
+                                    search_layers[*layer_index].max_tranche = wordlist[0].tranche;
+                                    break;
                                 }
 
                                 // Ascend back to the previous layer (perhaps recursively!)
-- 
2.43.0


From 326883bfdb96460de2ef27c40502018319f6bf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 14/23] fix: group repetitions and single-element substrings
 when printing expressions

---
 noodle/src/parser.rs | 33 +++++++++++++++++++++++----------
 noodle/src/words.rs  |  2 +-
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 6c056fc..790ac8e 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -387,6 +387,19 @@ impl QueryAst {
     }
 }
 
+/// Format an `Ast` as a `Rule::term`: unlike the others, repetitions have to be grouped
+struct AsTerm<'a>(&'a Ast);
+
+impl fmt::Display for AsTerm<'_> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        match self.0 {
+            Ast::Repetition { .. } => write!(f, "({})", self.0),
+            Ast::Sequence(nodes) if nodes.len() == 1 => write!(f, "{}", AsTerm(&nodes[0])),
+            node => write!(f, "{}", node),
+        }
+    }
+}
+
 impl fmt::Display for Ast {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
@@ -411,11 +424,11 @@ impl fmt::Display for Ast {
                 }
             }
             Ast::Substring(nodes) => {
-                if nodes.len() > 1 {
+                if !nodes.is_empty() {
                     write!(f, "(")?;
                 }
-                nodes.iter().try_for_each(|n| write!(f, "{}", n))?;
-                if nodes.len() > 1 {
+                nodes.iter().try_for_each(|n| write!(f, "{}", AsTerm(n)))?;
+                if !nodes.is_empty() {
                     write!(f, ":^)")?;
                 }
             }
@@ -423,37 +436,37 @@ impl fmt::Display for Ast {
                 term,
                 min: 0,
                 max: None,
-            } => write!(f, "{}*", term)?,
+            } => write!(f, "{}*", AsTerm(term))?,
             Ast::Repetition {
                 term,
                 min: 0,
                 max: Some(1),
-            } => write!(f, "{}?", term)?,
+            } => write!(f, "{}?", AsTerm(term))?,
             Ast::Repetition {
                 term,
                 min: 1,
                 max: None,
-            } => write!(f, "{}+", term)?,
+            } => write!(f, "{}+", AsTerm(term))?,
             Ast::Repetition {
                 term,
                 min: 0,
                 max: Some(max),
-            } => write!(f, "{}{{,{}}}", term, max)?,
+            } => write!(f, "{}{{,{}}}", AsTerm(term), max)?,
             Ast::Repetition {
                 term,
                 min,
                 max: None,
-            } => write!(f, "{}{{{},}}", term, min)?,
+            } => write!(f, "{}{{{},}}", AsTerm(term), min)?,
             Ast::Repetition {
                 term,
                 min,
                 max: Some(max),
-            } if min == max => write!(f, "{}{{{}}}", term, min)?,
+            } if min == max => write!(f, "{}{{{}}}", AsTerm(term), min)?,
             Ast::Repetition {
                 term,
                 min,
                 max: Some(max),
-            } => write!(f, "{}{{{},{}}}", term, min, max)?,
+            } => write!(f, "{}{{{},{}}}", AsTerm(term), min, max)?,
             Ast::Anagram { kind, bank } => {
                 write!(f, "<")?;
                 bank.iter().try_for_each(|c| write!(f, "{:?}", c))?;
diff --git a/noodle/src/words.rs b/noodle/src/words.rs
index 2974093..7802212 100644
--- a/noodle/src/words.rs
+++ b/noodle/src/words.rs
@@ -134,7 +134,7 @@ impl fmt::Debug for CharBitset {
         }
         let ones = self.0.count_ones();
         if ones == 0 {
-            return write!(f, "0");
+            return write!(f, "[^a-z]");
         }
         if ones > 1 {
             write!(f, "[")?;
-- 
2.43.0


From a636abb95d5cb941dfddff763b00cabec9c77418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:54 +0000
Subject: [PATCH 15/23] fix: don't overflow the counter of steps in a long
 search for phrases

---
 noodle/src/query.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index 6ce75bd..b4730e7 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -502,7 +502,7 @@ impl<'word> QueryEvaluator<'word> {
             } => {
                 assert!(!wordlist.is_empty());
 
-                let mut deadline_check_count = 0;
+                let mut deadline_check_count: u32 = 0;
                 let mut result = None;
                 loop {
                     let search_phase = match search_queue.first() {
@@ -630,7 +630,7 @@ impl<'word> QueryEvaluator<'word> {
                         break;
                     }
 
-                    deadline_check_count += 1;
+                    deadline_check_count = deadline_check_count.wrapping_add(1);
                     if deadline_check_count % 256 == 0
                         && deadline.is_some()
                         && Some(Instant::now()) > deadline
-- 
2.43.0


From 17139703299680abe572d49cab6a14b228e6c4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:10 +0000
Subject: [PATCH 16/23] fix: only give up optimizing once the matchers agree on
 the words

After 100 passes, the matchers could be left with different lists of
words. They refer to words by their index in the list, so that wrong
phrases were reported, and matching ones missed.
---
 noodle/src/query.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index b4730e7..285a1c8 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -361,7 +361,13 @@ impl<'word> QueryEvaluator<'word> {
                         if converged {
                             break;
                         }
-                        if optimization_passes > 100 {
+                        // Only give up once the matchers agree on the `alive_wordlist`, because they refer
+                        // to the words by their index in it
+                        if optimization_passes > 100
+                            && matchers
+                                .iter()
+                                .all(|m| m.alive_wordlist.len() == alive_wordlist.len())
+                        {
                             log_messages.push(format!(
                                 "gave up after performing {} optimization passes",
                                 optimization_passes
-- 
2.43.0


From d7d654a9b9694fd64986c3c595c3ad793561a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:12 +0000
Subject: [PATCH 17/23] fix: recognise the end of block comments, and comments
 without text

---
 noodle/src/noodle_grammar.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 486f01c..f8fcfdb 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -1,7 +1,7 @@
 WHITESPACE = _{ " " }
 COMMENT = _{ 
-    (("//" | "--") ~ ANY+) |
-    ("/*" ~ ANY+ ~ "*/")
+    (("//" | "--") ~ ANY*) |
+    ("/*" ~ (!"*/" ~ ANY)* ~ "*/")
 }
 
 // Note: Keep field names human-readable, they end up in error messages
-- 
2.43.0


From 8edc9ae03a2779e746214aac3df3109b53dc941c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:12 +0000
Subject: [PATCH 18/23] fix: accept spaces in letter ranges

---
 noodle/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 790ac8e..8eaf336 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -530,8 +530,9 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
             inner.for_each(|p| match p.as_rule() {
                 Rule::invert => invert = true,
                 Rule::letter_range => {
+                    // There may be spaces around the dash
                     let cs = p.as_str().chars().collect::<Vec<_>>();
-                    bitset.union_with(CharBitset::from_range(cs[0], cs[2]));
+                    bitset.union_with(CharBitset::from_range(cs[0], cs[cs.len() - 1]));
                 }
                 Rule::character => {
                     bitset.union_with(CharBitset::from(p.as_str().chars().next().unwrap()))
-- 
2.43.0


From d91ce4e15d9c3aca8d844c9bc12f16b6ea80b94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:12 +0000
Subject: [PATCH 19/23] fix: ignore spaces between the letters of an anagram

---
 noodle/src/noodle_grammar.pest | 3 ++-
 noodle/src/parser.rs           | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index f8fcfdb..b94575c 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -16,7 +16,8 @@ dot = { "." }
 letter_range = { ASCII_ALPHA ~ "-" ~ ASCII_ALPHA }
 invert = { "^" }
 class = { "[" ~ invert? ~ (letter_range | character)+ ~ "]" }
-anagram_body = { ASCII_ALPHA+ }
+letter = { ASCII_ALPHA }
+anagram_body = { letter+ }
 
 sequence = { (repeat | term)+ }
 alternatives = { sequence ~ ("|" ~ sequence)+ }
diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 8eaf336..4d44b46 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -504,7 +504,10 @@ fn parse_numbers(pairs: Pairs<'_, Rule>) -> Vec<usize> {
 fn parse_anagram(mut pairs: Pairs<'_, Rule>) -> (Vec<Char>, Option<usize>) {
     let body = pairs.next().unwrap();
     assert_eq!(body.as_rule(), Rule::anagram_body);
-    let bank = body.as_str().chars().map(|c| c.into()).collect();
+    let bank = body
+        .into_inner()
+        .map(|letter| letter.as_str().chars().next().unwrap().into())
+        .collect();
     let number = parse_numbers(pairs).get(0).cloned();
 
     (bank, number)
-- 
2.43.0


From e2d7d12eab827cebf6101a2d951bc7f8e5020b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:29 +0000
Subject: [PATCH 20/23] fix: refuse a query without expressions instead of
 panicking

---
 noodle/src/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 4d44b46..2971f7e 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -1,8 +1,8 @@
 use crate::words::*;
 use indexmap::IndexMap;
-use pest::error::{Error as PestError, LineColLocation};
+use pest::error::{Error as PestError, ErrorVariant, LineColLocation};
 use pest::iterators::{Pair, Pairs};
-use pest::Parser;
+use pest::{Parser, Position};
 use std::fmt;
 
 pub type Result<T> = std::result::Result<T, PestError<Rule>>;
@@ -188,6 +188,11 @@ impl QueryAst {
                 }
             }
         }
+        if expressions.is_empty() {
+            let message = "the query has no expression".to_string();
+            let variant = ErrorVariant::CustomError { message };
+            return Err(PestError::new_from_pos(variant, Position::from_start(input_str)));
+        }
         if let Some(mut wl) = wordlist {
             wl.sort();
             options.wordlist = Some(wl);
-- 
2.43.0


From 612c35ef8f65e85c2ac5ba425f49a7da740d76b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:38 +0000
Subject: [PATCH 21/23] fix: stop reading a word list at an error that would
 come up again forever

---
 noodle/src/words.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/noodle/src/words.rs b/noodle/src/words.rs
index 7802212..7e25f84 100644
--- a/noodle/src/words.rs
+++ b/noodle/src/words.rs
@@ -231,6 +231,8 @@ where
 
     let mut wordlist: Vec<_> = unzip
         .lines()
+        // Skip lines which aren't UTF-8; any other error could come up again forever
+        .take_while(|line| !matches!(line, Err(e) if e.kind() != io::ErrorKind::InvalidData))
         .filter_map(|line| line.ok())
         .filter_map(|line| {
             // Parse either a plain wordlist, or a 2-column (count, word) variant
-- 
2.43.0


From 0941a23871897776181cd94135ee8de0b233c63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:38 +0000
Subject: [PATCH 22/23] fix: limit the score of a very long line of a word list

---
 noodle/src/words.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noodle/src/words.rs b/noodle/src/words.rs
index 7e25f84..ec5b41c 100644
--- a/noodle/src/words.rs
+++ b/noodle/src/words.rs
@@ -237,7 +237,7 @@ where
         .filter_map(|line| {
             // Parse either a plain wordlist, or a 2-column (count, word) variant
             let mut word = line.as_ref();
-            let mut score = line.len() as u32 * 200;
+            let mut score = line.len().saturating_mul(200).try_into().unwrap_or(u32::MAX);
             if let Some((count_col, word_col)) = line.split_once('\t') {
                 if let Ok(count) = count_col.parse::<u32>() {
                     score = count;
-- 
2.43.0


From f1ac465de43b361b21944d57fe99af381831f8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:38 +0000
Subject: [PATCH 23/23] fix: keep dashes and digits in the name of a dictionary

---
 noodle/src/noodle_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index b94575c..82140b2 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -79,7 +79,8 @@ macro_value = { (' '..'~')* } // Nearly any ASCII character
 macro_define = { SOI ~ macro_name ~ "=" ~ macro_value ~ EOI }
 
 pragma_words = { ^"#words" ~ number }
-pragma_dict = { (^"#dict" | ^"#dictionary") ~ (character | "-")+ }
+dictionary_character = { ASCII_ALPHANUMERIC | "." | "'" | "_" | "-" }
+pragma_dict = { (^"#dictionary" | ^"#dict") ~ dictionary_character+ }
 pragma_limit = {^"#limit" ~ number }
 pragma_quiet = {^"#quiet"}
 pragma_wordlist = {^"#wordlist"}
-- 
2.43.0

