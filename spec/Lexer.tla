------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The tokenizing iterator.  A case is a list of patterns and an input.    *)
(* Positions count consumed characters, so position n is "before input     *)
(* character n+1".  One action per externally meaningful step:             *)
(*   Call     the consumer asks for the next token                         *)
(*   Scan     one more character is looked at (read from the source if it  *)
(*            was not looked at before)                                    *)
(*   ScanEnd  the source has no more characters                            *)
(*   Emit     the longest match becomes a token, the rest is given back    *)
(*   Stop     nothing matched: the stream ends                             *)
(***************************************************************************)
EXTENDS Regex, TLC

CONSTANTS Cases,      \* set of case identifiers
          Pats(_),    \* the pattern list of a case
          Src(_)      \* the input of a case

VARIABLES cid,        \* the case
          pos,        \* everything before pos has been handed out in tokens
          cur,        \* scanning position of the current call
          pulled,     \* number of characters taken from the source so far
          live,       \* set of <<pattern, continuation>>: what can still match
          best,       \* <<pattern, length>> of the longest match so far, or None
          phase       \* "idle" | "scan" | "emit" | "done"

lexVars == <<cid, pos, cur, pulled, live, best, phase>>

None == <<0, 0>>

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Start(P) == {<<p, <<P[p]>>>> : p \in 1..Len(P)}
Advance(L, c) == UNION {{<<x[1], k>> : k \in StepK(x[2], c)} : x \in L}
Accepting(L) == {x[1] : x \in {y \in L : NullK(y[2])}}
(* ties: the pattern registered first *)
Better(L, n, b) == LET A == Accepting(L) IN IF A = {} THEN b ELSE <<MinOf(A), n>>

LexInit ==
  /\ cid \in Cases
  /\ pos = 0 /\ cur = 0 /\ pulled = 0
  /\ live = {} /\ best = None /\ phase = "idle"

Call ==
  /\ phase = "idle"
  /\ live' = Start(Pats(cid))
  /\ best' = Better(live', 0, None)
  /\ cur' = pos
  /\ phase' = "scan"
  /\ UNCHANGED <<cid, pos, pulled>>

Scan ==
  /\ phase = "scan" /\ cur < Len(Src(cid))
  /\ LET c == Src(cid)[cur + 1] IN
       /\ cur' = cur + 1
       /\ pulled' = IF cur' > pulled THEN cur' ELSE pulled
       /\ live' = Advance(live, c)
       /\ best' = Better(live', cur' - pos, best)
       /\ phase' = IF live' = {} THEN "emit" ELSE "scan"
  /\ UNCHANGED <<cid, pos>>

ScanEnd ==
  /\ phase = "scan" /\ cur = Len(Src(cid))
  /\ phase' = "emit"
  /\ UNCHANGED <<cid, pos, cur, pulled, live, best>>

Emit ==
  /\ phase = "emit" /\ best # None
  /\ pos' = pos + best[2]
  /\ phase' = "idle" /\ live' = {} /\ best' = None /\ cur' = pos'
  /\ UNCHANGED <<cid, pulled>>

Stop ==
  /\ phase = "emit" /\ best = None
  /\ phase' = "done" /\ live' = {}
  /\ UNCHANGED <<cid, pos, cur, pulled, best>>

Finished == phase = "done" /\ UNCHANGED lexVars

LexNext == Call \/ Scan \/ ScanEnd \/ Emit \/ Stop \/ Finished
LexSpec == LexInit /\ [][LexNext]_lexVars /\ WF_lexVars(LexNext)
=============================================================================
