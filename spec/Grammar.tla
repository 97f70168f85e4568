------------------------------ MODULE Grammar -------------------------------
(***************************************************************************)
(* Context-free grammars and what they generate.                           *)
(* Symbols are integers: terminals >= 0 and < 1000, nonterminals >= 1000,  *)
(* the error symbol -1, end of input -2.  A grammar is a sequence of rules *)
(* <<lhs, rhs>> and a start symbol; Aug adds the rule for the goal symbol  *)
(* as the last rule.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

ErrSym == -1
EOI == -2
Goal == 999999
IsN(x) == x >= 1000

Aug(rules, start) == Append(rules, <<Goal, <<start>>>>)

RulesOf(R, n) == {i \in 1..Len(R) : R[i][1] = n}

RECURSIVE NullFix(_, _)
NullFix(R, N) ==
  LET M == N \cup {R[i][1] : i \in {j \in 1..Len(R) : \A k \in 1..Len(R[j][2]) : R[j][2][k] \in N}}
  IN  IF M = N THEN N ELSE NullFix(R, M)
Nullable(R) == NullFix(R, {})

RECURSIVE ProdFix(_, _)
ProdFix(R, N) ==
  LET M == N \cup {R[i][1] : i \in {j \in 1..Len(R) :
                      \A k \in 1..Len(R[j][2]) : R[j][2][k] \in N \/ (~IsN(R[j][2][k]) /\ R[j][2][k] # ErrSym)}}
  IN  IF M = N THEN N ELSE ProdFix(R, M)
(* nonterminals that derive some token sequence *)
Productive(R) == ProdFix(R, {})
AllProductive(R) == \A i \in 1..Len(R) : R[i][1] \in Productive(R)

----------------------------------------------------------------------------
(* Earley recognition, directly from the grammar: chart j is the set of    *)
(* <<rule, dot, origin>> such that the first dot symbols of the rule       *)
(* derive the input between origin and j, in the context of a leftmost     *)
(* derivation of what was read so far.                                     *)
(* C is a grammar context [r, nul, by]: rules, nullable nonterminals, and   *)
(* the rules of each nonterminal.                                          *)
GrammarCtx(R) == [r |-> R, nul |-> Nullable(R), by |-> [x \in {R[i][1] : i \in 1..Len(R)} |-> RulesOf(R, x)]]

NextSym(C, it) == LET rhs == C.r[it[1]][2] IN IF it[2] < Len(rhs) THEN rhs[it[2] + 1] ELSE EOI

RECURSIVE EarleyClose(_, _, _, _)
EarleyClose(C, charts, done, todo) ==
  IF todo = {} THEN done
  ELSE
  LET j == Len(charts)
      preds == {x \in todo : IsN(NextSym(C, x))}
      predicted == UNION {{<<r, 0, j>> : r \in C.by[n]} : n \in {NextSym(C, it) : it \in preds}}
      skipped == {<<it[1], it[2] + 1, it[3]>> : it \in {x \in preds : NextSym(C, x) \in C.nul}}
      ready == {<<C.r[it[1]][1], it[3]>> : it \in {x \in todo : x[3] < j /\ x[2] = Len(C.r[x[1]][2])}}
      completed == UNION {{<<p[1], p[2] + 1, p[3]>> : p \in {x \in charts[c[2] + 1] : NextSym(C, x) = c[1]}} : c \in ready}
      all == done \cup todo
  IN  EarleyClose(C, charts, all, (predicted \cup skipped \cup completed) \ all)

(* charts is the sequence of complete charts for positions 0..Len-1 *)
EarleyStart(C) == <<EarleyClose(C, <<>>, {}, {<<Len(C.r), 0, 0>>})>>
EarleyScan(C, charts, t) ==
  LET S == {<<x[1], x[2] + 1, x[3]>> : x \in {y \in charts[Len(charts)] : NextSym(C, y) = t}}
  IN  Append(charts, EarleyClose(C, charts, {}, S))
EarleyAccepts(C, charts) == <<Len(C.r), 1, 0>> \in charts[Len(charts)]

RECURSIVE EarleyRun(_, _, _, _)
EarleyRun(C, charts, w, i) == IF i > Len(w) THEN charts ELSE EarleyRun(C, EarleyScan(C, charts, w[i]), w, i + 1)
Derives(C, w) == EarleyAccepts(C, EarleyRun(C, EarleyStart(C), w, 1))

----------------------------------------------------------------------------
(* The language up to length n by saturation, without any automaton: used  *)
(* to cross-check Earley and LR on small grammars.                         *)
RECURSIVE Cats(_, _, _, _)
Cats(L, rhs, k, n) ==       \* words of length <= n derivable from rhs[k..]
  IF k > Len(rhs) THEN {<<>>}
  ELSE LET heads == IF IsN(rhs[k]) THEN L[rhs[k]] ELSE IF n >= 1 /\ rhs[k] # ErrSym THEN {<<rhs[k]>>} ELSE {}
       IN UNION {{h \o t : t \in Cats(L, rhs, k + 1, n - Len(h))} : h \in {x \in heads : Len(x) <= n}}
RECURSIVE LangFix(_, _, _)
LangFix(R, L, n) ==
  LET M == [x \in DOMAIN L |-> L[x] \cup UNION {Cats(L, R[i][2], 1, n) : i \in RulesOf(R, x)}]
  IN  IF M = L THEN L ELSE LangFix(R, M, n)
Lang(R, n) == LangFix(R, [x \in {R[i][1] : i \in 1..Len(R)} |-> {}], n)[Goal]
=============================================================================
