---------------------------- MODULE DeriveTrace -----------------------------
(***************************************************************************)
(* Validates recorded parses against the grammar itself: derivability and  *)
(* viable prefixes by Earley's algorithm, reducer calls by rebuilding the  *)
(* tree.  No LR automaton is involved.                                     *)
(*   accept   accepted a non-sentence or refused a sentence        (C09)   *)
(*   tree     calls are not a bottom-up, left-to-right replay      (C10)   *)
(*   root     the result is not the value of the tree's root       (C10)   *)
(*   reads    read beyond the first impossible token               (C11)   *)
(*   early    gave up although what was read can be completed      (C11)   *)
(*   late     a reducer ran after an impossible token was read     (C11)   *)
(***************************************************************************)
EXTENDS Grammar, TLC, Json, IOUtils

Groups == ndJsonDeserialize(IOEnv.V_GROUPS)
Runs == ndJsonDeserialize(IOEnv.V_RUNS)
Focus == {IOEnv.V_F1, IOEnv.V_F2, IOEnv.V_F3}

VARIABLES cid, bad, phase
vars == <<cid, bad, phase>>

Ctxs == [g \in 1..Len(Groups) |-> GrammarCtx(Aug(Groups[g].g, Groups[g].st))]
Run == Runs[cid]
W == Run.s

(* how many tokens of w can be read before no sentence continues *)
RECURSIVE Viable(_, _, _, _)
Viable(C, charts, w, i) ==
  IF charts[Len(charts)] = {} THEN [v |-> i - 2, acc |-> FALSE]
  ELSE IF i > Len(w) THEN [v |-> Len(w), acc |-> EarleyAccepts(C, charts)]
  ELSE Viable(C, EarleyScan(C, charts, w[i]), w, i + 1)
Judge(C, w) == Viable(C, EarleyStart(C), w, 1)

----------------------------------------------------------------------------
(* values: sequence of [id, x, lo, hi] built so far, lo = -1 if no token    *)
RECURSIVE Walk(_, _, _, _, _, _)
Walk(rhs, ev, vals, i, lo, hi) ==      \* vals: the values for the nonterminals of rhs[i..]
  IF i > Len(rhs) THEN [ok |-> TRUE, lo |-> lo, hi |-> hi]
  ELSE IF IsN(rhs[i])
  THEN LET x == Head(vals) IN
       IF ~(ev.k[i] = "n" /\ ev.a[i] = <<x.id>> /\ x.x = rhs[i] /\ (x.lo = -1 \/ hi = -1 \/ x.lo = hi))
       THEN [ok |-> FALSE]
       ELSE Walk(rhs, ev, Tail(vals), i + 1, IF lo = -1 THEN x.lo ELSE lo, IF x.lo = -1 THEN hi ELSE x.hi)
  ELSE LET t == ev.a[i] IN
       IF ~(ev.k[i] = "t" /\ Len(t) = 1 /\ t[1] + 1 \in 1..Len(W) /\ W[t[1] + 1] = rhs[i] /\ (hi = -1 \/ t[1] = hi))
       THEN [ok |-> FALSE]
       ELSE Walk(rhs, ev, vals, i + 1, IF lo = -1 THEN t[1] ELSE lo, t[1] + 1)

Count(rhs) == Cardinality({i \in 1..Len(rhs) : IsN(rhs[i])})

RECURSIVE Replay(_, _, _)
Replay(rules, vals, k) ==       \* values after all calls, or <<"bad">> at the first call that does not fit
  IF k > Len(Run.ev) THEN [ok |-> TRUE, vals |-> vals]
  ELSE LET ev == Run.ev[k]
           known == ev.r \in 1..(Len(rules) - 1)
           rhs == rules[ev.r][2]
           n == Count(rhs)
           m == Len(vals)
       IN IF ~known \/ Len(ev.k) # Len(rhs) \/ n > m THEN [ok |-> FALSE, vals |-> vals]
          ELSE LET w == Walk(rhs, ev, SubSeq(vals, m - n + 1, m), 1, -1, -1)
                   rest == SubSeq(vals, 1, m - n)
                   after == w.ok /\ (w.lo = -1 \/ \A i \in 1..Len(rest) : rest[i].lo = -1 \/ rest[i].hi <= w.lo)
               IN IF ~after \/ w.hi > ev.n THEN [ok |-> FALSE, vals |-> vals]
                  ELSE Replay(rules, Append(rest, [id |-> k, x |-> rules[ev.r][1], lo |-> w.lo, hi |-> w.hi]), k + 1)

Root(rules, vals) ==
  /\ Len(vals) = 1
  /\ vals[1].id = Run.v /\ vals[1].x = rules[Len(rules)][2][1]
  /\ IF W = <<>> THEN vals[1].lo = -1 ELSE vals[1].lo = 0 /\ vals[1].hi = Len(W)

----------------------------------------------------------------------------
Init == cid \in 1..Len(Runs) /\ bad = {} /\ phase = "run"

Check ==
  /\ phase = "run"
  /\ LET C == Ctxs[Run.g]
         rules == C.r
         lang == {"accept", "reads", "early", "late"} \cap Focus # {}
         j == IF lang THEN Judge(C, W) ELSE [v |-> 0, acc |-> FALSE]
         t == IF {"tree", "root"} \cap Focus # {} THEN Replay(rules, <<>>, 1) ELSE [ok |-> TRUE, vals |-> <<>>]
         over == Run.e \in {"ok", "rnf"}
     IN bad' =
       (IF lang /\ ((Run.e = "ok") # j.acc \/ ~over) THEN {"accept"} ELSE {})
       \cup (IF lang /\ Run.n > j.v + 1 THEN {"reads"} ELSE {})
       \cup (IF lang /\ Run.e # "ok" /\ (Run.n < j.v + 1 \/ j.acc) THEN {"early"} ELSE {})
       \cup (IF lang /\ \E k \in 1..Len(Run.ev) : LET n == Run.ev[k].n IN n > j.v /\ ~(n = Len(W) + 1 /\ j.acc) THEN {"late"} ELSE {})
       \cup (IF t.ok THEN {} ELSE {"tree"})
       \cup (IF t.ok /\ "root" \in Focus /\ Run.e = "ok" /\ ~Root(rules, t.vals) THEN {"root"} ELSE {})
       \cup (IF over THEN {} ELSE {"tree"})
  /\ phase' = "end" /\ cid' = cid

Report ==
  /\ phase = "end"
  /\ IF bad \cap Focus = {} THEN TRUE ELSE PrintT(<<"REJECT", cid, bad, 0>>)
  /\ phase' = "done" /\ UNCHANGED <<cid, bad>>

Spec == Init /\ [][Check \/ Report]_vars
=============================================================================
