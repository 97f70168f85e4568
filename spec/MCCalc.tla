------------------------------- MODULE MCCalc -------------------------------
(***************************************************************************)
(* Every token sequence up to a length: what the parse loop and the        *)
(* reducers compute is the conventional value; everything else is rejected,*)
(* and rejected at the first token that cannot be continued.  The tokens   *)
(* are chosen only when the parse loop asks for them.                      *)
(***************************************************************************)
EXTENDS Calc, TLC, IOUtils, Json

MaxLen == atoi(IOEnv.V_LEN)
VARIABLES toks, eof, sem, stk, cur, nxt, rd, rec, calls, res, call, er
drvVars == <<stk, cur, nxt, rd, rec, calls, res, call, er>>
vars == <<toks, eof, sem, drvVars>>

G == INSTANCE LR1
Tabs == ndJsonDeserialize(IOEnv.V_TABS)      \* written by LRGen
R == Tabs[1].r
T == Tabs[1].tab
ASSUME R = G!Aug(CalcRules, Sum)
pair == <<0, toks>>
PTab(c) == T
PRules(c) == R
PSrc(c) == c[2]
PFault(c) == 0
D == INSTANCE LRDriver WITH cid <- pair, Cases <- {}, Tab <- PTab, Rules <- PRules, Src <- PSrc, Fault <- PFault

Init == /\ toks = <<>> /\ eof = FALSE /\ sem = <<>>
        /\ stk = <<>> /\ cur = 1 /\ nxt = 0 /\ rd = 0 /\ rec = {} /\ calls = 0
        /\ res = [e |-> "run", v |-> 0] /\ call = D!NoCall /\ er = D!NoErr

Demand == D!Running /\ nxt >= Len(toks) /\ ~eof
Supply == /\ Demand
          /\ \/ Len(toks) < MaxLen /\ (\E t \in 0..7 : toks' = Append(toks, t)) /\ eof' = FALSE
             \/ eof' = TRUE /\ toks' = toks
          /\ UNCHANGED <<sem, drvVars>>
Step == /\ ~Demand
        /\ \/ (D!Shift \/ D!Accept \/ D!Detect \/ D!Pop \/ D!Inject \/ D!GiveUp) /\ sem' = sem
           \/ /\ D!Reduce
              /\ LET c == call'
                     x == [i \in 1..Len(c.k) |-> IF c.k[i] = "n" THEN sem[c.a[i][1]] ELSE <<<<"num", c.a[i][1] + 1>>>>]
                 IN sem' = Append(sem, Reduced(c.r, x))
        /\ eof' = eof
Next == Supply \/ Step
Spec == Init /\ [][Next]_vars

Accepted == res.e = "ok" => eof /\ WellFormed(toks) /\ sem[res.v] = Meaning(toks)
Rejected == res.e = "rnf" => IF eof THEN ~WellFormed(toks) ELSE ~Viable(toks)
OnDemand == res.e = "run" => Viable(SubSeq(toks, 1, nxt))
NoRecovery == er.on => rec = {}
ASSUME Tabs[1].conf = <<>>
=============================================================================
