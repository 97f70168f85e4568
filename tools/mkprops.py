#!/usr/bin/env python3
"""Writes properties.jsonl (single source for ids/titles/statements)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,**kw):
    a={"files":files}; a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Built tokenizer recognises exactly the regular languages of its patterns",
 "For every list of supported regular expressions, the tokenizer built from them recognises exactly the strings that standard regular-expression semantics assign to each pattern, for inputs of any length and over all Unicode characters. No string outside a pattern's language is ever matched by it, and no string inside it is missed.",
 ["inputs","programs"],"every list of supported regexes (programs) and every input string of any length",
 "Unit tests compare a handful of hand-written automata; nested repetitions, overlapping character classes and state merging combine without bound.",
 ["tokenizer/src/nfa.rs","tokenizer/src/dfa.rs","tokenizer/src/tokenizer.rs"],
 mechanism=[{"name":"regex to NFA construction","where":"tokenizer/src/nfa.rs impl TryFrom<HirKind> for NFA"},{"name":"subset construction and range splitting","where":"tokenizer/src/dfa.rs From<TokenizerNFA>, align_by_begin, split_by_end"},{"name":"state minimisation","where":"tokenizer/src/dfa.rs minify, compress_next"},{"name":"range lookup","where":"tokenizer/src/tokenizer.rs get_next_node"}],
 observe_at=["DFATokenizer transition/accept tables (public fields)","token text and pattern handed to callbacks"],hook_needed=None)
p("C02","Every token is the longest match at its position",
 "Each token the tokenizing iterator emits is the longest prefix of the remaining input that any of the patterns matches, even when finding that out requires scanning arbitrarily far beyond the end of the token and giving the scanned characters back. This holds at every token of the stream, including after earlier give-backs and at the end of the input.",
 ["inputs","programs","histories"],"every pattern list, every input, every token position in the stream and every history of earlier give-backs",
 "Tests use three short inputs with at most one character of give-back.",
 ["tokenizer/src/tokenizer/iter.rs"],
 mechanism=[{"name":"last match bookkeeping and re-queueing","where":"tokenizer/src/tokenizer/iter.rs TokenizeIterator::next"}],
 observe_at=["(start, length) of every emitted token"],hook_needed=None)
p("C03","Ties between patterns go to the pattern registered first",
 "When several patterns match the same longest text, the token is produced by the callback of the pattern that was registered earliest, and by no other. This holds whatever the number of patterns, their overlap and the way their automata share states.",
 ["inputs","programs"],"every pattern list and every input",
 "Tests have one keyword/identifier example on the automaton level and none with three-way or partial overlaps through minimisation.",
 ["tokenizer/src/dfa.rs","tokenizer/src/tokenizer.rs","tokenizer/src/tokenizer/iter.rs"],
 mechanism=[{"name":"reverse-order end insertion","where":"tokenizer/src/dfa.rs From<TokenizerNFA>"},{"name":"initial partition by pattern","where":"tokenizer/src/dfa.rs minify"}],
 observe_at=["index of the callback invoked for each token"],hook_needed=None)
p("C04","Tokens tile the input: nothing lost, duplicated, reordered or altered",
 "The tokens emitted before the stream first ends cover a prefix of the input contiguously and in order: each callback receives exactly the characters of its token as text and exactly the source items of its token, each item being handed out once. The stream ends only when the input is used up or no pattern matches at the current position.",
 ["inputs","programs","histories"],"every pattern list, item type/mapping and input",
 "Tests check start/length on three inputs; re-queued items of longer give-backs and multi-token histories are never inspected.",
 ["tokenizer/src/tokenizer/iter.rs"],
 mechanism=[{"name":"items/queue hand-over","where":"tokenizer/src/tokenizer/iter.rs TokenizeIterator::next"}],
 observe_at=["text and items received by each callback","first None of the iterator"],hook_needed=None)
p("C05","Input is read on demand, never beyond what a token decision needs",
 "When a token is handed out, the tokenizer has taken from its source no item beyond the first one that rules out every longer match, and it takes each source item exactly once. Creating a tokenizing iterator reads nothing.",
 ["inputs","programs","histories"],"every pattern list and every (possibly interactive or infinite) input source",
 "Tests only collect finite strings, where over-reading is invisible.",
 ["tokenizer/src/tokenizer/iter.rs"],
 mechanism=[{"name":"scan loop breaks at the first dead character","where":"tokenizer/src/tokenizer/iter.rs TokenizeIterator::next"}],
 observe_at=["number of items pulled from the source at each emitted token"],hook_needed=None)
p("C06","Pattern lists are accepted or rejected by construct support alone",
 "Building a tokenizer fails with an error exactly when some pattern is not a valid regular expression or uses an unsupported construct (anchors, word boundaries, byte-oriented classes); every other pattern list builds successfully. Building never panics, and a rejected construct is found wherever it is nested.",
 ["inputs","programs"],"every pattern list, with the offending construct at any position and nesting depth",
 "No test exercises the error path of building.",
 ["tokenizer/src/nfa.rs","tokenizer/src/tokenizer.rs"],
 mechanism=[{"name":"NFAConstructError / RegexError propagation","where":"tokenizer/src/nfa.rs TryFrom<HirKind>, TokenizerBuilder::build"}],
 observe_at=["Ok/Err of TokenizerBuilder::build"],hook_needed=None)
p("C07","Overlap warnings are exact",
 "Building a tokenizer reports an overlap between two patterns if and only if there is some string that both match and that no pattern registered between the two matches as well. Pattern lists whose languages are pairwise disjoint build without warnings.",
 ["programs","inputs"],"every pattern list",
 "One test checks two warnings on one pattern list.",
 ["tokenizer/src/dfa.rs"],
 mechanism=[{"name":"accepting-set walk after the subset construction","where":"tokenizer/src/dfa.rs From<TokenizerNFA>"}],
 state=[{"name":"EndConflict","meaning":"two patterns accept in one automaton state","where":"tokenizer/src/dfa.rs DFAConstructWarning"}],
 observe_at=["warnings returned by TokenizerBuilder::build"],hook_needed=None)
p("C08","Rebuilding gives the same behaviour every time",
 "Building a tokenizer or a parser again from the same patterns or the same grammar, in the same or another process, always yields an object with the same observable behaviour and the same set of warnings. No hash-seed, allocation-address or iteration-order effect is visible.",
 ["configurations","schedules","programs"],"every pattern list or grammar and every hash seed / memory layout",
 "Each test builds each object once per run with random hash seeds; a 1-in-100 wrong build passes unnoticed.",
 ["tokenizer/src/dfa.rs","tokenizer/src/nfa.rs","tokenizer/src/lib.rs","parser/src/parser.rs"],
 mechanism=[{"name":"hash maps keyed by node addresses and by range maps","where":"tokenizer/src/dfa.rs minify; parser/src/parser.rs LR1Parser::new"}],
 observe_at=["behaviour of many independent rebuilds"],hook_needed=None)
p("C09","A conflict-free parser accepts exactly the sentences of its grammar",
 "If parser construction reports no conflicts and the grammar has no error productions, parsing a token sequence succeeds exactly when the grammar derives it from the start symbol. This holds for nullable symbols, left/right/hidden recursion, grammars that are LR(1) but not LALR(1), and sequences of any length.",
 ["inputs","programs"],"every LR(1) grammar and every token sequence",
 "Tests parse one sentence of one expression grammar and compare one table.",
 ["parser/src/parser.rs","parser/src/iter.rs","parser/src/syntax.rs"],
 mechanism=[{"name":"nullable/first/closure/goto","where":"parser/src/parser.rs calc_null, calc_first, calc_closure, calc_goto"},{"name":"table construction","where":"parser/src/parser.rs calc_table, calc_all_goto"},{"name":"driver","where":"parser/src/iter.rs Parse::parse"}],
 observe_at=["Ok/Err of parse","public action/goto tables"],hook_needed=None)
p("C10","Reducers replay the derivation bottom-up with exactly their own children",
 "During a parse the reducers are called in the order of a rightmost derivation in reverse: once per node of the parse tree, children before parents, each with exactly the values its children produced and exactly the tokens of its rule, in order. A successful parse returns the value produced for the start symbol at the root.",
 ["inputs","programs","histories"],"every grammar, every token sequence, every reducer call of the parse",
 "Tests look at the final value of a few sentences of one grammar.",
 ["parser/src/iter.rs"],
 mechanism=[{"name":"Action::Reduce arm","where":"parser/src/iter.rs Parse::parse"}],
 observe_at=["sequence of reducer calls with arguments","value returned"],hook_needed=None)
p("C11","Invalid input is detected at the first impossible token",
 "The parser reads one token at a time and never reads past the first token that no sentence of the grammar can have at that position; that token triggers no reducer call. A reducer runs only while everything read so far can still be completed to a sentence.",
 ["inputs","programs","histories"],"every LR(1) grammar and every token sequence",
 "No test observes what is read or reduced before an error.",
 ["parser/src/parser.rs","parser/src/iter.rs"],
 mechanism=[{"name":"full LR(1) lookahead (no state merging, no default reductions)","where":"parser/src/parser.rs calc_closure, calc_table"}],
 observe_at=["tokens pulled from the source at each reducer call and at the error"],hook_needed=None)
p("C12","A failing reducer aborts the parse at once with its own error",
 "When a reducer returns an error, parse returns exactly that error as a reducer error (displayed, it shows the reducer's own message), calls no further reducer and reads no further token. No reducer failure is ever swallowed, replaced or treated as a syntax error that recovery could absorb.",
 ["inputs","programs","fault_sequences"],"every grammar, every input and every reducer call at which a failure is injected",
 "One macro test returns one error from one rule.",
 ["parser/src/iter.rs"],
 mechanism=[{"name":"map_err(ErrorInReducer)?","where":"parser/src/iter.rs Parse::parse"}],
 observe_at=["result of parse, calls and reads after the failure"],hook_needed=None)
p("C13","Conflict reports are exact",
 "Parser construction reports a shift/reduce or reduce/reduce conflict if and only if the grammar has one in its canonical LR(1) automaton, and each report names the rules involved. A grammar for which nothing is reported is therefore LR(1) and unambiguous.",
 ["programs"],"every grammar",
 "No test looks at parser construction warnings.",
 ["parser/src/parser.rs"],
 mechanism=[{"name":"detection of an already present action","where":"parser/src/parser.rs calc_table"}],
 state=[{"name":"CalcTableWarning","meaning":"reported conflict","where":"parser/src/parser.rs calc_table"}],
 observe_at=["warnings returned by LR1Parser::new"],hook_needed=None)
p("C14","Conflicts resolve to shift, then to the earlier rule",
 "For a grammar with conflicts the parser still behaves deterministically: a shift is preferred over a reduction, among competing reductions the rule declared first is used, and completing the whole input takes precedence over a further reduction at its end. All inputs are parsed accordingly, with the reducer calls this choice implies.",
 ["inputs","programs"],"every grammar with conflicts and every input",
 "No test builds a grammar with conflicts.",
 ["parser/src/parser.rs"],
 mechanism=[{"name":"match on existing action","where":"parser/src/parser.rs calc_table"}],
 observe_at=["reducer calls and result on ambiguous grammars","public action tables"],hook_needed=None)
p("C15","Error recovery resumes at the nearest applicable error production",
 "On an unexpected token the parser resumes at the innermost point of the parse where an error production applies (one already being recovered with, if a recovery is in progress), discarding tokens one at a time until the text after the error production fits; at the end of input it recovers only where an error production applies directly. If there is no such point, parse fails with the recovery-not-found error; valid input is never affected by error productions.",
 ["inputs","programs","histories"],"every grammar with error productions, every input with any number of errors",
 "Tests try six inputs on one grammar and one input on another.",
 ["parser/src/iter.rs","parser/src/parser.rs"],
 mechanism=[{"name":"None arm (backtracking, recovery set)","where":"parser/src/iter.rs Parse::parse"},{"name":"error rules per state","where":"parser/src/parser.rs calc_error_rules"}],
 observe_at=["reducer calls and result of parses with errors"],hook_needed=None)
p("C16","An error production sees exactly the span of the error it absorbs",
 "The tokens handed to a reducer for an error symbol are a contiguous run of the input: from the first token of everything discarded for that error (including whatever had already been parsed or already been skipped) up to and including the token at which the error was last detected, which contributes nothing when that is the end of input. No discarded token is missing from the span.",
 ["inputs","programs","histories"],"every grammar with error productions and every erroneous input, including empty input and errors at end of input",
 "Tests check four spans on one grammar; none at end of input or over previously recovered or empty phrases.",
 ["parser/src/iter.rs"],
 mechanism=[{"name":"head/tail/error_head bookkeeping","where":"parser/src/iter.rs Parse::parse"}],
 observe_at=["error slices received by reducers"],hook_needed=None)
p("C17","Parsing always terminates and never panics",
 "For every grammar that builds without conflicts, with or without error productions, parsing any finite token sequence terminates with a value, a reducer error or the recovery-not-found error. It neither panics nor loops, in particular on empty input, on errors at end of input and on adjacent or recursive error productions.",
 ["inputs","programs","histories"],"every conflict-free grammar and every finite input",
 "Tests cover about ten inputs on three grammars; no adjacent error symbols, no empty input.",
 ["parser/src/iter.rs"],
 mechanism=[{"name":"progress of recovery","where":"parser/src/iter.rs Parse::parse None arm"}],
 observe_at=["outcome of parse within a step budget"],hook_needed=None)
p("C18","tokenizer! behaves like the tokenizer built at run time",
 "A tokenizer generated at compile time by the tokenizer! macro behaves on every input exactly like the one built at run time from the same patterns and callbacks: same tokens, same callbacks, same source items, same end of stream. This covers any number of rules, any character type and patterns with string escapes.",
 ["inputs","programs"],"every macro invocation and every input",
 "Tests run one pattern list through the macro on three inputs.",
 ["tokenizer_generator/src/lib.rs"],
 mechanism=[{"name":"table constructors","where":"tokenizer_generator/src/lib.rs tokenizer"}],
 observe_at=["token stream of macro-generated tokenizers"],hook_needed=None)
p("C19","parser! behaves like the parser built at run time",
 "A parser generated at compile time by the parser! macro behaves on every input exactly like the one built at run time from the same rules, start symbol and reducers, including error productions, `|` continuation rules, empty rules, and token/symbol lists in any order relative to the enum declarations. Results, reducer calls and errors are the same.",
 ["inputs","programs"],"every macro invocation and every input",
 "Tests run one grammar (lists in enum order, no continuation rules, start symbol first) through the macro on two inputs.",
 ["parser_generator/src/lib.rs"],
 mechanism=[{"name":"table and rule constructors with index remapping","where":"parser_generator/src/lib.rs parser"}],
 observe_at=["reducer calls and results of macro-generated parsers"],hook_needed=None)
p("C20","Tokenizer and parser compose: text to value, on demand",
 "Feeding a tokenizing iterator directly into parse gives the result of parsing the token sequence of the text: the arithmetic example evaluates every well-formed expression to its conventional value (precedence, left associativity, brackets, unary signs) and rejects every other line. Text beyond the one character and one token of lookahead needed to reject is not read.",
 ["inputs","histories"],"every input line",
 "The example has no tests at all and nothing tests the two halves together.",
 ["example/src/main.rs","tokenizer/src/tokenizer/iter.rs","parser/src/iter.rs"],
 mechanism=[{"name":"iterator chaining","where":"example/src/main.rs main"}],
 observe_at=["output of the example program","result of tokenize(..).parse(..)"],hook_needed=None)
p("C21","Runs sharing a tokenizer or parser do not influence each other",
 "Any number of tokenizing iterators and parses may use the same tokenizer or parser: one after another, interleaved step by step, or nested, where a callback, a reducer or the source of items itself uses the same object. Each of them observes exactly what it would observe alone, also after other runs failed, were abandoned half-way or were unwound by a panic in user code.",
 ["histories","schedules"],"every interleaving and nesting of runs, every point at which a run is abandoned or panics",
 "Tests build a fresh object for every input and run one input at a time.",
 ["tokenizer/src/tokenizer/iter.rs","tokenizer/src/tokenizer.rs","parser/src/iter.rs"],
 mechanism=[{"name":"all run state is local","where":"tokenizer/src/tokenizer/iter.rs TokenizeIterator, parser/src/iter.rs parse"}],
 observe_at=["token streams, callback arguments and reads of runs sharing a tokenizer","reducer calls and results of parses sharing a parser"],hook_needed=None)
p("C22","The macros refuse ill-formed definitions and announce warnings at compile time",
 "A parser! invocation compiles only if every token, symbol and start symbol it uses is listed in its own name space (tokens by name, tokens by text, symbols) and every `|` continuation has a rule before it; a tokenizer! invocation compiles only if every pattern is supported. Well-formed invocations compile, and while they do, conflicts between rules and overlaps between patterns are announced exactly when there are some.",
 ["inputs"],"every macro invocation",
 "No test compiles an ill-formed invocation or looks at what is printed while compiling.",
 ["parser_generator/src/lib.rs","tokenizer_generator/src/lib.rs"],
 mechanism=[{"name":"name maps and warnings","where":"parser_generator/src/lib.rs parser, tokenizer_generator/src/lib.rs tokenizer"}],
 observe_at=["whether the invocation compiles","what is printed while it is compiled"],hook_needed=None)
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
