From 0f6f6d8c7bf25e2c96c2d2cc1b7018a7a762ce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 1/6] fix: FOLLOW misses FIRST(B) when B is followed by itself

---
 src/grammar/first_follow_symbols.rs | 30 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/grammar/first_follow_symbols.rs b/src/grammar/first_follow_symbols.rs
index f744611..a4dff6c 100644
--- a/src/grammar/first_follow_symbols.rs
+++ b/src/grammar/first_follow_symbols.rs
@@ -395,26 +395,24 @@ impl<T: Clone + Eq + Hash> FirstFollowSymbols<T> {
         let next_symbol_index: usize = production_output_index + 1;
         let next_symbol = production.output.get(next_symbol_index).unwrap();
 
-        if current_symbol.ne(next_symbol) {
-            let next_symbol_first_symbols = first_symbols_map.get(next_symbol).unwrap();
+        let next_symbol_first_symbols = first_symbols_map.get(next_symbol).unwrap();
 
-            if !next_symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
-                first_indexes.clear();
-            }
+        if !next_symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
+            first_indexes.clear();
+        }
 
-            first_indexes.push(next_symbol_index);
+        first_indexes.push(next_symbol_index);
 
-            let mut current_symbol_follow_symbols =
-                follow_symbols_map.get(current_symbol).unwrap().borrow_mut();
+        let mut current_symbol_follow_symbols =
+            follow_symbols_map.get(current_symbol).unwrap().borrow_mut();
 
-            follow_symbols_updated |= Self::update_follow_symbols_lambda_chain(
-                grammar,
-                first_symbols_map,
-                production,
-                first_indexes,
-                &mut current_symbol_follow_symbols,
-            );
-        }
+        follow_symbols_updated |= Self::update_follow_symbols_lambda_chain(
+            grammar,
+            first_symbols_map,
+            production,
+            first_indexes,
+            &mut current_symbol_follow_symbols,
+        );
 
         follow_symbols_updated
     }
-- 
2.43.0


From 6949cc7adeae40d28a7ed1fb77242545705917a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 2/6] fix: predict productions by FIRST of the whole right-hand
 side

---
 .../recursive_descent_parser_transitions.rs   | 94 ++++---------------
 1 file changed, 19 insertions(+), 75 deletions(-)

diff --git a/src/parser/recursive_descent_parser_transitions.rs b/src/parser/recursive_descent_parser_transitions.rs
index 5da0a98..6f6863c 100644
--- a/src/parser/recursive_descent_parser_transitions.rs
+++ b/src/parser/recursive_descent_parser_transitions.rs
@@ -74,93 +74,37 @@ impl<T: Clone + Eq + Hash> RecursiveDescentParserTransitions<T> {
      *
      * -----------------------------------------------------------------------------
      *
-     * Unfortunately we don't compute FIRST(α). Fortunately, $ is handled as an
-     * additional terminal symbol in the grammar. Keeping this in mind, there's a
-     * way to determine all the terminal symbols a in which M[A; a] = A → α
-     *
-     * -----------------------------------------------------------------------------
-     *
-     * Alternative algorithm:
-     *
-     * INPUT: Grammar G.
-     * OUTPUT: Parsing table M.
-     * METHOD: For each production A → Bα of the grammar, do the following:
-     *
-     *     1. For each terminal a in FIRST(B), add A → α to M[A; a].
-     *     2.1. If B is terminal and B is ε, then for each terminal b in FOLLOW(A),
-     *          add A → α to M[A; b]
-     *     2.2. If B is non terminal and ε is in FIRST(B), then for each terminal b
-     *          in FOLLOW(B), add A → α to M[A; b].
+     * FIRST(α) is computed from the FIRST sets of the symbols of α. Fortunately, $
+     * is handled as an additional terminal symbol in the grammar, so there's no
+     * need to handle it at step 2.
      */
     fn inner_from_get_production_first_symbols(
         grammar: &ContextFreeGrammar<T>,
         production: &ContextFreeGrammarProduction<T>,
         first_follow_symbols: &FirstFollowSymbols<T>,
     ) -> HashSet<T> {
-        let production_first_symbols: HashSet<T>;
+        let mut production_first_symbols: HashSet<T> = HashSet::new();
 
-        let symbol = production.output.get(0).unwrap();
-
-        let symbol_first_symbols = first_follow_symbols.get_first_symbols(&symbol).unwrap();
-
-        if symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
-            production_first_symbols =
-                Self::inner_from_get_production_first_symbols_on_epsilon_first(
-                    grammar,
-                    production,
-                    first_follow_symbols,
-                    symbol,
-                    symbol_first_symbols,
-                );
-        } else {
-            production_first_symbols =
-                Self::inner_from_get_production_first_symbols_on_non_epsilon_first(
-                    symbol_first_symbols,
-                );
-        }
+        for symbol in &production.output {
+            let symbol_first_symbols = first_follow_symbols.get_first_symbols(symbol).unwrap();
 
-        production_first_symbols
-    }
+            symbol_first_symbols
+                .iter()
+                .filter(|symbol| grammar.get_epsilon_symbol().ne(*symbol))
+                .for_each(|symbol| {
+                    production_first_symbols.insert(symbol.clone());
+                });
 
-    fn inner_from_get_production_first_symbols_on_epsilon_first(
-        grammar: &ContextFreeGrammar<T>,
-        production: &ContextFreeGrammarProduction<T>,
-        first_follow_symbols: &FirstFollowSymbols<T>,
-        symbol: &T,
-        symbol_first_symbols: &HashSet<T>,
-    ) -> HashSet<T> {
-        let mut production_first_symbols = HashSet::new();
-
-        symbol_first_symbols
-            .iter()
-            .filter(|symbol| grammar.get_epsilon_symbol().ne(*symbol))
-            .for_each(|symbol| {
-                production_first_symbols.insert(symbol.clone());
-            });
-
-        let symbol_follow_symbols: &HashSet<T>;
-
-        if grammar.get_epsilon_symbol().eq(symbol) {
-            symbol_follow_symbols = first_follow_symbols
-                .get_follow_symbols(&production.input)
-                .unwrap();
-        } else {
-            symbol_follow_symbols = first_follow_symbols.get_follow_symbols(&symbol).unwrap();
+            if !symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
+                return production_first_symbols;
+            }
         }
 
-        symbol_follow_symbols.iter().for_each(|symbol| {
-            production_first_symbols.insert(symbol.clone());
-        });
-
-        production_first_symbols
-    }
-
-    fn inner_from_get_production_first_symbols_on_non_epsilon_first(
-        symbol_first_symbols: &HashSet<T>,
-    ) -> HashSet<T> {
-        let mut production_first_symbols = HashSet::new();
+        let input_follow_symbols: &HashSet<T> = first_follow_symbols
+            .get_follow_symbols(&production.input)
+            .unwrap();
 
-        symbol_first_symbols.iter().for_each(|symbol| {
+        input_follow_symbols.iter().for_each(|symbol| {
             production_first_symbols.insert(symbol.clone());
         });
 
-- 
2.43.0


From 222596af7e41a0692257fc91b4bb63b7449746f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 3/6] fix: parsing panics when the input ends before a
 non-terminal

---
 src/parser/recursive_descent_parser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index 91c49f5..4a1877f 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -440,10 +440,12 @@ impl<
         token_position: usize,
         is_single_path: bool,
     ) -> ParseSymbolResult<TLex, TSyntax> {
-        let current_token_symbol = tokens.get(token_position).unwrap();
-
-        let token_productions =
-            self.inner_get_token_productions(production_symbol, &current_token_symbol.t_type);
+        let token_productions = match tokens.get(token_position) {
+            Some(current_token_symbol) => {
+                self.inner_get_token_productions(production_symbol, &current_token_symbol.t_type)
+            }
+            None => vec![],
+        };
 
         let token_productions_iter = token_productions.into_iter();
 
-- 
2.43.0


From 9e2f704960e2059de3eb3acfff0348fb05753c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 4/6] fix: failed productions lose the non-terminals parsed
 before the failure

---
 src/parser/recursive_descent_parser.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index 4a1877f..5b194b2 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -547,9 +547,9 @@ impl<
                 State::Fixed(fixed_state) => {
                     reversed_failed_symbols.push(State::Fixed(fixed_state));
                 }
-                State::Parsing(parsing_state) => {
+                State::Parsing(mut parsing_state) => {
                     if parsing_state.prod_iter_option.is_some() {
-                        let productions_iterator = parsing_state.prod_iter_option.unwrap();
+                        let productions_iterator = parsing_state.prod_iter_option.take().unwrap();
 
                         let state_option = self.inner_parse_from_tokens(
                             &parsing_state.node.token.t_type,
@@ -564,7 +564,9 @@ impl<
                                 states.push(State::Parsing(state));
                                 states_pop_success = true;
                             }
-                            _ => {}
+                            _ => {
+                                reversed_failed_symbols.push(State::Parsing(parsing_state));
+                            }
                         }
                     } else {
                         reversed_failed_symbols.push(State::Parsing(parsing_state));
-- 
2.43.0


From 03a51d4e896ac89949f839ff174e24dfa8d8b25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 5/6] fix: syntax error solver is consulted for tokens that can
 be parsed

---
 src/parser/recursive_descent_parser.rs | 45 +++++++++++++++++---------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index 5b194b2..2c9eed2 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -127,22 +127,14 @@ impl<
             panic!("Expecting at least one token!")
         }
 
-        let symbol_to_derive = self.grammar.get_initial_symbol();
-        let token_position: usize = 0;
-        let first_token = tokens_vector.get(token_position).unwrap();
-
-        let first_token_productions =
-            self.inner_get_token_productions(symbol_to_derive, &first_token.t_type);
+        // Fixing is the last resource: no fix is attempted unless the tokens can't be parsed
+        let mut parse_symbol_result = self.inner_parse_initial_symbol(&tokens_vector, false);
 
-        let first_token_productions_iter = first_token_productions.into_iter();
-
-        let parse_symbol_result = self.inner_parse_from_tokens(
-            symbol_to_derive,
-            &tokens_vector,
-            token_position,
-            first_token_productions_iter,
-            true,
-        );
+        if self.syntax_error_solver.is_some()
+            && matches!(parse_symbol_result, ParseSymbolResult::Err(_))
+        {
+            parse_symbol_result = self.inner_parse_initial_symbol(&tokens_vector, true);
+        }
 
         Self::parse_symbol_result_to_parse_result(parse_symbol_result)
     }
@@ -183,6 +175,29 @@ impl<
             .unwrap_or(vec![])
     }
 
+    fn inner_parse_initial_symbol(
+        &self,
+        tokens: &Vec<Token<TLex, TSyntax>>,
+        is_single_path: bool,
+    ) -> ParseSymbolResult<TLex, TSyntax> {
+        let symbol_to_derive = self.grammar.get_initial_symbol();
+        let token_position: usize = 0;
+        let first_token = tokens.get(token_position).unwrap();
+
+        let first_token_productions =
+            self.inner_get_token_productions(symbol_to_derive, &first_token.t_type);
+
+        let first_token_productions_iter = first_token_productions.into_iter();
+
+        self.inner_parse_from_tokens(
+            symbol_to_derive,
+            tokens,
+            token_position,
+            first_token_productions_iter,
+            is_single_path,
+        )
+    }
+
     fn inner_parse_from_tokens(
         &self,
         symbol_to_derive: &TSyntax,
-- 
2.43.0


From 908466254bfe37122b47fc9a989da3230756f46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:21 +0000
Subject: [PATCH 6/6] fix: syntax error solver is consulted while backtracking
 into parsed symbols

---
 src/parser/recursive_descent_parser.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index 2c9eed2..38d9210 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -358,7 +358,7 @@ impl<
                     states.push(State::Parsing(parsing_state));
                 }
                 ParseSymbolResult::Err(failed_symbol) => {
-                    match self.inner_parse_pop_states(&mut states, tokens, is_single_path) {
+                    match self.inner_parse_pop_states(&mut states, tokens) {
                         Some(production_parsing_states) => {
                             return Self::inner_parse_from_tokens_production_build_failed_symbol(
                                 failed_symbol,
@@ -548,7 +548,6 @@ impl<
         &self,
         states: &mut Vec<State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>>,
         tokens: &Vec<Token<TLex, TSyntax>>,
-        is_single_path: bool,
     ) -> Option<Vec<State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>>> {
         let mut reversed_failed_symbols: Vec<
             State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>,
@@ -571,7 +570,7 @@ impl<
                             tokens,
                             parsing_state.initial_token_position,
                             productions_iterator,
-                            is_single_path,
+                            false,
                         );
 
                         match state_option {
-- 
2.43.0

