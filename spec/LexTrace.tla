------------------------------ MODULE LexTrace ------------------------------
(***************************************************************************)
(* Validates recorded runs of the real tokenizer against Lexer.  The files *)
(* hold groups (pattern lists) and the runs recorded for them.  Every      *)
(* recorded token is one Emit of the specification; scanning between two   *)
(* tokens is performed by the specification itself.  What a token violates *)
(* is accumulated in bad, as one name per property:                        *)
(*   member    text is not in the language of the pattern that got it, or  *)
(*             text that a pattern matches produced no token               *)
(*   longest   not the longest match                                       *)
(*   first     another, earlier pattern matches the same text              *)
(*   tile      text/items differ from the input at the position, or the    *)
(*             stream ended although something matches                     *)
(*   pull      more characters had been read than needed                   *)
(*   panic     the call panicked                                           *)
(* After a violation validation continues from where the real token ended. *)
(***************************************************************************)
EXTENDS Lexer, Json, IOUtils

Groups == ndJsonDeserialize(IOEnv.V_GROUPS)   \* pattern lists
Runs == ndJsonDeserialize(IOEnv.V_RUNS)       \* recorded runs, each naming its group
Focus == {IOEnv.V_F1, IOEnv.V_F2, IOEnv.V_F3}

VARIABLES k, bad

TCases == 1..Len(Runs)
TPats(c) == Groups[Runs[c].g].p
TSrc(c) == Runs[c].s
Run(c) == Runs[c]
Toks == Run(cid).t
IsPanic == Run(cid).e \notin {"none", "cap", "stop"}

vars == <<lexVars, k, bad>>

TInit == LexInit /\ k = 0 /\ bad = (IF Run(cid).c > 0 THEN {"pull"} ELSE {})

(* earliest pattern matching exactly the text x, 0 if none *)
First(x) == LET M == {p \in 1..Len(Pats(cid)) : Accepts(Pats(cid)[p], x)}
            IN  IF M = {} THEN 0 ELSE MinOf(M)

Slice(a, b) == SubSeq(Src(cid), a + 1, b)

TCall == Call /\ k < Len(Toks) /\ UNCHANGED <<k, bad>>
TCallEnd == Call /\ k = Len(Toks) /\ Run(cid).e = "none" /\ UNCHANGED <<k, bad>>
TScan == (Scan \/ ScanEnd) /\ UNCHANGED <<k, bad>>

(* the token the real code produced next, at the point where the specification decides *)
TEmit ==
  /\ phase = "emit" /\ k < Len(Toks)
  /\ LET t == Toks[k + 1]
         n == Len(t.x)
         p == t.p + 1
         tileOk == /\ pos + n <= Len(Src(cid))
                   /\ t.x = Slice(pos, pos + n)
                   /\ IF Run(cid).m = "chars" THEN t.i = t.x
                      ELSE Len(t.i) = n /\ \A j \in 1..n : t.i[j] = pos + j - 1
         exact == best # None /\ best = <<p, n>>
         memberOk == exact \/ Accepts(Pats(cid)[p], t.x)
         longestOk == best # None /\ n = best[2]
         firstOk == exact \/ First(t.x) \in {p, 0}
         pullOk == t.u <= pulled
         new == (IF tileOk THEN {} ELSE {"tile"})
                \cup (IF memberOk THEN {} ELSE {"member"})
                \cup (IF ~memberOk \/ longestOk THEN {} ELSE {"longest"})
                \cup (IF best # None /\ ~longestOk THEN {"longest"} ELSE {})
                \cup (IF firstOk THEN {} ELSE {"first"})
                \cup (IF pullOk THEN {} ELSE {"pull"})
     IN /\ bad' = bad \cup new
        /\ k' = k + 1
        /\ pos' = IF tileOk THEN pos + n ELSE pos
        /\ cur' = pos'
        /\ phase' = IF tileOk THEN "idle" ELSE "end"
        /\ live' = {} /\ best' = None
        /\ pulled' = IF t.u > pulled THEN t.u ELSE pulled
        /\ UNCHANGED cid

(* the real stream ended here *)
TStop ==
  /\ phase = "emit" /\ k = Len(Toks)
  /\ bad' = bad \cup (IF best = None THEN {} ELSE {"tile", "member"})
                \cup (IF Run(cid).u <= pulled THEN {} ELSE {"pull"})
  /\ phase' = "end"
  /\ UNCHANGED <<cid, pos, cur, pulled, live, best, k>>

(* recording was cut off (endless empty tokens, or deliberately) or the code panicked *)
TCut ==
  /\ phase = "idle" /\ k = Len(Toks) /\ Run(cid).e # "none"
  /\ bad' = bad \cup (IF IsPanic THEN {"panic"} ELSE {})
  /\ phase' = "end"
  /\ UNCHANGED <<cid, pos, cur, pulled, live, best, k>>

Report ==
  /\ phase = "end"
  /\ IF bad \cap Focus = {} THEN TRUE ELSE PrintT(<<"REJECT", cid, bad, k>>)
  /\ phase' = "done"
  /\ UNCHANGED <<cid, pos, cur, pulled, live, best, k, bad>>

TDone == phase = "done" /\ UNCHANGED vars

TNext == TCall \/ TCallEnd \/ TScan \/ TEmit \/ TStop \/ TCut \/ Report \/ TDone
TSpec == TInit /\ [][TNext]_vars
=============================================================================
