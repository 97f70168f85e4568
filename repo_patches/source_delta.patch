From f1a807dcee2a59d7691829c85399c2a14b04ef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:03 +0000
Subject: [PATCH 1/8] fix: repetitions of sub-expressions whose automaton is
 re-entrant matched too much

'?', '*', '{n,}' and '{0,m}' added epsilon edges directly to the inner begin and
end nodes. When the inner begin can be re-entered or the inner end can be left
again, e.g. (a+b)?, (a*b)*, (ab*)?, those edges combined with the inner ones and
strings outside the language were accepted ((a+b)? matched "a").
---
 tokenizer/src/nfa.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/tokenizer/src/nfa.rs b/tokenizer/src/nfa.rs
index 8890d84..0e050fa 100644
--- a/tokenizer/src/nfa.rs
+++ b/tokenizer/src/nfa.rs
@@ -224,6 +224,28 @@ impl Clone for NFA {
     }
 }
 
+impl NFA {
+    // A repetition adds epsilon edges between begin and end. They must not combine with inner edges that re-enter begin or leave end again.
+    fn isolate(mut self) -> Self {
+        let begin = Edge(Arc::downgrade(&self.begin));
+        let enters_begin = |node: &NFANode| node.epsilon.contains(&begin) || node.next.values().any(|set| set.contains(&begin));
+        if self.node.iter().any(|node| enters_begin(&node.read().unwrap())) {
+            let node: Arc<RwLock<NFANode>> = Arc::new(Default::default());
+            node.write().unwrap().epsilon.insert(begin);
+            self.node.push(Arc::clone(&node));
+            self.begin = node;
+        }
+        let leaves_end = |node: &NFANode| !node.epsilon.is_empty() || !node.next.is_empty();
+        if leaves_end(&self.end.read().unwrap()) {
+            let node: Arc<RwLock<NFANode>> = Arc::new(Default::default());
+            self.end.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&node)));
+            self.node.push(Arc::clone(&node));
+            self.end = node;
+        }
+        self
+    }
+}
+
 impl TryFrom<Hir> for NFA {
     type Error = <NFA as TryFrom<HirKind>>::Error;
 
@@ -281,7 +303,7 @@ impl TryFrom<HirKind> for NFA {
             HirKind::Anchor(_) => Err(NFAConstructError::AnchorIsNotSupported),
             HirKind::WordBoundary(_) => Err(NFAConstructError::WordBoundaryIsNotSupported),
             HirKind::Repetition(repetition) => {
-                let mut inner = NFA::try_from(repetition.hir.into_kind())?;
+                let mut inner = NFA::try_from(repetition.hir.into_kind())?.isolate();
                 match repetition.kind {
                     RepetitionKind::ZeroOrOne => {
                         inner.begin.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&inner.end)));
-- 
2.43.0


From 736d69f751aff61b3d9cbfb5110546b1f1a9fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:25 +0000
Subject: [PATCH 2/8] fix: minimisation could merge DFA states whose ranges
 differ only in their end

CharRange is compared by its start alone, so as a hash map key two transition
tables such as {a..=b} and {a..=c} are equal although they hash differently.
Depending on the hash seed (about one build in 100 for x([ab][abc])*[ab]?) such
states were merged and the tokenizer accepted wrong text.
---
 tokenizer/src/dfa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tokenizer/src/dfa.rs b/tokenizer/src/dfa.rs
index d6d87a2..8216410 100644
--- a/tokenizer/src/dfa.rs
+++ b/tokenizer/src/dfa.rs
@@ -149,7 +149,8 @@ impl<'a> TokenizerDFA<'a> {
                 let mut split_group = HashMap::new();
                 for node in set {
                     let node_next = &(*node).next;
-                    let compressed_next = Self::compress_next(&group_map, node_next);
+                    // CharRange compares by its start only, so the whole range has to be spelled out in the key
+                    let compressed_next = Self::compress_next(&group_map, node_next).into_iter().map(|(key, group)| (key.range, group)).collect::<Vec<_>>();
                     split_group.entry(compressed_next).or_insert_with(HashSet::new).insert(node.reference());
                 }
                 updated |= split_group.len() > 1;
-- 
2.43.0


From a96808c3534dc6eeeef97ea24758bbac905e7198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:27 +0000
Subject: [PATCH 3/8] fix: report the conflict between accepting and a
 reduction at end of input

For ambiguous grammars such as S -> S | a the accept action silently replaced a
reduction on end of input and no conflict was reported.
---
 parser/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index dd8008f..5c0f90a 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -249,7 +249,9 @@ fn calc_table<N, T, E>(state_list: HashMap<StateInterop, GotoListInterop>, start
         for item in state {
             if item.position == rules[item.rule].symbols.len() {
                 if item.rule == start_rule {
-                    action.insert(TerminalSymbol::EOI, Action::Accept);
+                    if let Some(Action::Reduce(reduce)) = action.insert(TerminalSymbol::EOI, Action::Accept) {
+                        warnings.push(CalcTableWarning::ReduceReduce { state: current_state.clone(), actions: [reduce, item.rule] });
+                    }
                 } else {
                     match action.get(&item.lookahead_symbol) {
                         None => {
-- 
2.43.0


From ae179eaa712cd2f3b26e87a74d684a6d89509699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:07 +0000
Subject: [PATCH 4/8] fix: error at end of input was attributed to the first
 token and panicked on empty input

The end-of-input lookahead carried token index 0, so an error production applied
there received the first token of the input as its error, and indexing panicked
when there was none.
---
 parser/src/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index c5f7454..aa61f8a 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -54,7 +54,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     buffer.push_back((TerminalSymbol::Symbol(symbol.enum_index()), symbols.len()));
                     symbols.push(symbol);
                 } else {
-                    buffer.push_back((TerminalSymbol::EOI, 0));
+                    buffer.push_back((TerminalSymbol::EOI, symbols.len()));
                 }
             }
             let (symbol, symbol_index) = buffer.front().unwrap();
@@ -94,7 +94,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                                     symbols_index = *i + 1;
                                     Symbol::Terminal(symbol)
                                 }
-                                SymbolInternal::Terminal((TerminalSymbol::Error(range), _)) => Symbol::Error(&all_symbols[range.clone()]),
+                                SymbolInternal::Terminal((TerminalSymbol::Error(range), _)) => Symbol::Error(&all_symbols[*range.start()..all_symbols.len().min(*range.end() + 1)]),
                                 SymbolInternal::Terminal((TerminalSymbol::EOI, _)) => {
                                     unreachable!()
                                 }
-- 
2.43.0


From 7c3c5a29db5b2b754961be56891d037b4b1443b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:09 +0000
Subject: [PATCH 5/8] fix: tokens after an empty rule were missing from the
 error span

A symbol reduced from an empty rule recorded the number of tokens read so far as
its position instead of the position of the lookahead token, which has been read
but not consumed. Discarding such a symbol on error recovery therefore skipped
tokens that were neither re-read nor part of the error.
---
 parser/src/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index aa61f8a..1fba900 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -79,7 +79,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                             SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => Some(*i),
                             _ => None,
                         })
-                        .unwrap_or(symbols.len());
+                        .unwrap_or(*symbol_index);
                     let mut rule_symbols = {
                         let mut rule_symbols_ = Vec::new();
                         let all_symbols = &symbols;
-- 
2.43.0


From 1fae9752d3b2d5c0c82ec7246f748c97a7a7385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:26 +0000
Subject: [PATCH 6/8] fix: tokens of a leading error were missing from a later,
 enclosing error span

A symbol reduced from a rule that begins with an error production forgot where
that error began, so when the symbol itself was discarded later, the tokens
skipped by the first error did not show up in the second.
---
 parser/src/iter.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index 1fba900..9928614 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -75,11 +75,16 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     let first_index: usize = rule_symbols
                         .iter()
                         .find_map(|symbol: &SymbolInternal<_, (TerminalSymbol<_, RangeInclusive<usize>>, _)>| match symbol {
-                            SymbolInternal::NonTerminal((_, i)) => Some(*i),
+                            SymbolInternal::NonTerminal((_, i, _)) => Some(*i),
                             SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => Some(*i),
                             _ => None,
                         })
                         .unwrap_or(*symbol_index);
+                    let span_start = match rule_symbols.first() {
+                        Some(SymbolInternal::NonTerminal((_, _, start))) => *start,
+                        Some(SymbolInternal::Terminal((TerminalSymbol::Error(range), _))) => *range.start(),
+                        _ => first_index,
+                    };
                     let mut rule_symbols = {
                         let mut rule_symbols_ = Vec::new();
                         let all_symbols = &symbols;
@@ -87,7 +92,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                         let mut symbols_index = 0;
                         for symbol in rule_symbols.iter_mut() {
                             let symbol = match symbol {
-                                SymbolInternal::NonTerminal((n, _)) => Symbol::NonTerminal(n),
+                                SymbolInternal::NonTerminal((n, _, _)) => Symbol::NonTerminal(n),
                                 SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => {
                                     let (symbol, follow) = symbols[*i - symbols_index..].split_first().unwrap();
                                     symbols = follow;
@@ -104,7 +109,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                         rule_symbols_
                     };
                     current_state = state.first().copied().unwrap_or(current_state);
-                    let reduced_symbol = SymbolInternal::NonTerminal(((parser.rules[*rule].generator)(&mut rule_symbols[..]).map_err(ParseError::ErrorInReducer)?, first_index));
+                    let reduced_symbol = SymbolInternal::NonTerminal(((parser.rules[*rule].generator)(&mut rule_symbols[..]).map_err(ParseError::ErrorInReducer)?, first_index, span_start));
                     stack.push((current_state, reduced_symbol));
                     current_state = *parser.goto_table.get(&current_state).unwrap().get(&parser.rules[*rule].non_terminal).unwrap();
                     if error_recovery_state.contains(rule) {
@@ -112,7 +117,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     }
                 }
                 Some(Action::Accept) => {
-                    if let Some((_, SymbolInternal::NonTerminal((symbol, _)))) = stack.pop() {
+                    if let Some((_, SymbolInternal::NonTerminal((symbol, _, _)))) = stack.pop() {
                         return Ok(symbol);
                     } else {
                         unreachable!()
@@ -141,7 +146,11 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                         if let Some((state, symbol)) = stack.pop() {
                             current_state = state;
                             match symbol {
-                                SymbolInternal::NonTerminal((_, i)) | SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => {
+                                SymbolInternal::NonTerminal((_, i, start)) => {
+                                    head = i;
+                                    error_head = start;
+                                }
+                                SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => {
                                     head = i;
                                 }
                                 SymbolInternal::Terminal((TerminalSymbol::Error(range), _)) => {
-- 
2.43.0


From 000d8ed9110595455caf7f93b3a0636c8f7aca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:50 +0000
Subject: [PATCH 7/8] fix: adjacent error productions could loop forever

When the state after an error production has an error production itself (for
example A -> error A | x), recovery kept applying it to the same token without
ever discarding one.
---
 parser/src/iter.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index 9928614..f265012 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -125,8 +125,13 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                 }
                 None => {
                     let is_eoi = matches!(symbol, TerminalSymbol::EOI);
-                    let mut backtracked = false;
                     let tail = *symbol_index;
+                    // applying an error production in the same state to the same token again would never end
+                    let mut backtracked = stack
+                        .iter()
+                        .rev()
+                        .take_while(|(_, symbol)| matches!(symbol, SymbolInternal::Terminal((TerminalSymbol::Error(range), _)) if *range.end() == tail))
+                        .any(|(state, _)| *state == current_state);
                     let mut head = tail;
                     let mut error_head = head;
                     loop {
-- 
2.43.0


From 63db0e0fe30e6f462802465c2556d7f1b5fa6305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:25 +0000
Subject: [PATCH 8/8] fix: parser! with an empty token list did not compile

---
 parser_generator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_generator/src/lib.rs b/parser_generator/src/lib.rs
index 88ab46e..478212b 100644
--- a/parser_generator/src/lib.rs
+++ b/parser_generator/src/lib.rs
@@ -470,7 +470,7 @@ pub fn parser(input: TokenStream) -> TokenStream {
     let symbols = symbols.items.iter().map(|SymbolItem { value, .. }| value); //.map(|symbol|quote!{ #symbol_type_name::#symbol });
     let result = quote! {
         #visibility fn #function_name() -> parser::LR1Parser<#symbol_type_name, #token_type_name, #error>{
-            let tokens = [#(parser::enum_index::EnumIndex::enum_index(&(#token_type_name::#tokens))),*];
+            let tokens: &[usize] = &[#(parser::enum_index::EnumIndex::enum_index(&(#token_type_name::#tokens))),*];
             let symbols = [#(parser::enum_index::EnumIndex::enum_index(&(#symbol_type_name::#symbols))),*];
             let action_table: std::collections::HashMap<usize, std::collections::HashMap<parser::TerminalSymbol<usize, ()>, parser::Action<usize, usize>>> = #action_table_constructor;
             let goto_table: std::collections::HashMap<usize, std::collections::HashMap<usize, usize>> = #goto_table_constructor;
-- 
2.43.0

