------------------------------ MODULE CalcRun -------------------------------
(***************************************************************************)
(* The example on given lines: Compose with the example's patterns and     *)
(* rules.  Writes, per line, whether it is well-formed and the program     *)
(* that computes its value (numbers as character positions).               *)
(***************************************************************************)
EXTENDS Compose, TLC, Json, IOUtils

C == INSTANCE Calc
Groups == ndJsonDeserialize(IOEnv.V_GROUPS)
Tabs == ndJsonDeserialize(IOEnv.V_TABS)
Lines == ndJsonDeserialize(IOEnv.V_RUNS)

TPats(c) == Groups[1].p
TMap(c) == Groups[1].map
TText(c) == Lines[c].s
TTab(c) == Tabs[1].tab
TRules(c) == Tabs[1].r
TFault(c) == 0

VARIABLES sem, st
vars == <<compVars, sem, st>>

Init == case \in 1..Len(Lines) /\ CompInit /\ sem = <<>> /\ st = "run"

Silent == /\ st = "run"
          /\ LexStep \/ Parse(D!Shift \/ D!Detect \/ D!Pop \/ D!Inject \/ D!Accept \/ D!GiveUp)
          /\ UNCHANGED <<sem, st>>
Called == /\ st = "run" /\ Parse(D!Reduce)
          /\ LET c == call'
                 x == [i \in 1..Len(c.k) |-> IF c.k[i] = "n" THEN sem[c.a[i][1]] ELSE <<<<"num", c.a[i][1] + 1>>>>]
             IN sem' = Append(sem, C!Reduced(c.r, x))
          /\ st' = st

Prog(p) == [i \in 1..Len(p) |-> IF p[i][1] = "num" THEN [o |-> "num", a |-> at[p[i][2]][1], b |-> at[p[i][2]][2]] ELSE [o |-> p[i][1], a |-> 0, b |-> 0]]
Finished ==
  /\ st = "run" /\ res.e # "run"
  /\ JsonSerialize(IOEnv.V_OUT \o "/" \o ToString(case) \o ".json",
       [ok |-> IF res.e = "ok" THEN 1 ELSE 0, prog |-> IF res.e = "ok" THEN Prog(sem[res.v]) ELSE <<>>, read |-> pulled])
  /\ st' = "done"
  /\ UNCHANGED <<compVars, sem>>

Next == Silent \/ Called \/ Finished
Spec == Init /\ [][Next]_vars

(* both readings agree on every line *)
Agree == st = "done" => IF res.e = "ok" THEN C!WellFormed(toks) /\ sem[res.v] = C!Meaning(toks)
                        ELSE IF phase = "done" THEN ~C!WellFormed(toks) ELSE ~C!Viable(toks)
=============================================================================
