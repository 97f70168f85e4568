------------------------------ MODULE LRDriver ------------------------------
(***************************************************************************)
(* The parse loop: an LR automaton over a token sequence, with recovery    *)
(* through error productions.  Tables are those of module LR1.             *)
(*                                                                         *)
(* A stack entry is                                                        *)
(*   q   state below the entry                                             *)
(*   k   "t" token, "n" value, "e" error                                   *)
(*   v   token index (t), value number (n), 0 (e)                          *)
(*   at  index of the first token the entry consists of; parsing resumes   *)
(*       just after it when the entry is discarded                         *)
(*   lo, hi   t, n: lo = first token of its text including error spans;    *)
(*            e: the span lo..hi                                           *)
(***************************************************************************)
EXTENDS LR1

CONSTANTS Cases,       \* what cid ranges over
          Tab(_),      \* case -> tables
          Rules(_),    \* case -> augmented rules
          Src(_),      \* case -> token sequence
          Fault(_)     \* case -> number of the reducer call that fails, 0 for none

VARIABLES cid, stk, cur, nxt, rd, rec, calls, res,
          call,        \* the reducer call made by the last step, <<>> if none
          er           \* recovery in progress: [on, back, head, ehead, tail]

drv == <<cid, stk, cur, nxt, rd, rec, calls, res, call, er>>

NoCall == [r |-> 0, k |-> <<>>, a |-> <<>>, n |-> 0]
NoErr == [on |-> FALSE, back |-> FALSE, head |-> 0, ehead |-> 0, tail |-> 0]

DrvInit ==
  /\ cid \in Cases
  /\ stk = <<>> /\ cur = 1 /\ nxt = 0 /\ rd = 0 /\ rec = {} /\ calls = 0
  /\ res = [e |-> "run", v |-> 0] /\ call = NoCall /\ er = NoErr

SrcLen == Len(Src(cid))
Tok(i) == IF i >= SrcLen THEN EOI ELSE Src(cid)[i + 1]
CurRow == Tab(cid)[cur]
Todo == Act(CurRow, Tok(nxt))
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

Running == res.e = "run" /\ ~er.on
Top(n) == SubSeq(stk, Len(stk) - n + 1, Len(stk))
Below(n) == SubSeq(stk, 1, Len(stk) - n)

(* reading happens when the lookahead is looked at for the first time *)
Read == rd' = Max(rd, nxt + 1)

Shift ==
  /\ Running /\ Todo[1] = "shift"
  /\ Read
  /\ stk' = Append(stk, [q |-> cur, k |-> "t", v |-> nxt, at |-> nxt, lo |-> nxt, hi |-> nxt])
  /\ cur' = Todo[2] /\ nxt' = nxt + 1
  /\ call' = NoCall
  /\ UNCHANGED <<cid, rec, calls, res, er>>

FirstAt(es) ==     \* first token of the entries, the lookahead if there is none
  LET I == {i \in 1..Len(es) : es[i].k # "e"}
  IN  IF I = {} THEN nxt ELSE es[CHOOSE i \in I : \A j \in I : i <= j].at
SpanLo(es) ==
  IF es # <<>> /\ es[1].k # "t" THEN es[1].lo ELSE FirstAt(es)

ErrTokens(x) == [i \in 1..(Min(x.hi + 1, SrcLen) - x.lo) |-> x.lo + i - 1]   \* the end of input contributes nothing
Arg(x) == IF x.k = "e" THEN ErrTokens(x) ELSE <<x.v>>

Reduce ==
  /\ Running /\ Todo[1] = "reduce"
  /\ Read
  /\ LET r == Todo[2]
         n == Len(Rules(cid)[r][2])
         es == Top(n)
         under == IF n = 0 THEN cur ELSE es[1].q
         fails == Fault(cid) = calls + 1
     IN /\ call' = [r |-> r, k |-> [i \in 1..n |-> es[i].k], a |-> [i \in 1..n |-> Arg(es[i])], n |-> rd']
        /\ calls' = calls + 1
        /\ IF fails
           THEN /\ res' = [e |-> "red", v |-> calls + 1]
                /\ UNCHANGED <<stk, cur, rec>>
           ELSE /\ stk' = Append(Below(n), [q |-> under, k |-> "n", v |-> calls + 1,
                                            at |-> FirstAt(es), lo |-> SpanLo(es), hi |-> 0])
                /\ cur' = Get(Tab(cid)[under].go, Rules(cid)[r][1])
                /\ rec' = IF r \in rec THEN {} ELSE rec
                /\ res' = res
  /\ UNCHANGED <<cid, nxt, er>>

Accept ==
  /\ Running /\ Todo[1] = "accept"
  /\ Read
  /\ res' = [e |-> "ok", v |-> stk[Len(stk)].v]
  /\ call' = NoCall
  /\ UNCHANGED <<cid, stk, cur, nxt, rec, calls, er>>

----------------------------------------------------------------------------
(* Recovery.  The unexpected token is Tok(nxt).  An error production        *)
(* applied in this very state to this very token is not applied again.     *)
Tried ==
  LET n == Len(stk)
      run == {i \in 1..n : \A j \in i..n : stk[j].k = "e" /\ stk[j].hi = nxt}
  IN  \E i \in run : stk[i].q = cur

Detect ==
  /\ Running /\ Todo[1] = "error"
  /\ Read
  /\ er' = [on |-> TRUE, back |-> Tried, head |-> nxt, ehead |-> nxt, tail |-> nxt]
  /\ call' = NoCall
  /\ UNCHANGED <<cid, stk, cur, nxt, rec, calls, res>>

ErrRules(s) == {Tab(cid)[s].err[i] : i \in 1..Len(Tab(cid)[s].err)}
Applies ==
  /\ ErrRules(cur) # {}
  /\ ~(er.tail >= SrcLen /\ er.back)        \* at the end of input only directly
  /\ rec = {} \/ rec \cap ErrRules(cur) # {}

Pop ==
  /\ er.on /\ ~Applies /\ stk # <<>>
  /\ LET x == stk[Len(stk)]
     IN /\ er' = [er EXCEPT !.back = TRUE,
                          !.head = IF x.k = "e" THEN @ ELSE x.at,
                          !.ehead = IF x.k = "t" THEN @ ELSE x.lo]
        /\ cur' = x.q
  /\ stk' = Below(1)
  /\ UNCHANGED <<cid, nxt, rd, rec, calls, res, call>>

Inject ==
  /\ er.on /\ Applies
  /\ rec' = IF rec = {} THEN ErrRules(cur) ELSE rec \cap ErrRules(cur)
  /\ stk' = Append(stk, [q |-> cur, k |-> "e", v |-> 0, at |-> 0, lo |-> Min(er.head, er.ehead), hi |-> er.tail])
  /\ cur' = Get(CurRow.go, ErrSym)
  /\ nxt' = IF er.back THEN er.head + 1 ELSE er.head
  /\ er' = NoErr
  /\ UNCHANGED <<cid, rd, calls, res, call>>

GiveUp ==
  /\ er.on /\ ~Applies /\ stk = <<>>
  /\ res' = [e |-> "rnf", v |-> 0]
  /\ er' = NoErr
  /\ UNCHANGED <<cid, stk, cur, nxt, rd, rec, calls, call>>

DrvNext == Shift \/ Reduce \/ Accept \/ Detect \/ Pop \/ Inject \/ GiveUp
=============================================================================
