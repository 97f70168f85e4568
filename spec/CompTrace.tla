----------------------------- MODULE CompTrace ------------------------------
(***************************************************************************)
(* Validates recorded runs of tokenize(..).flatten().parse(..) against     *)
(* Compose.  A token is known by the position of its first character.      *)
(* Recorded with every reducer call and at the end: n characters read, m   *)
(* tokens produced.                                                        *)
(***************************************************************************)
EXTENDS Compose, TLC, Json, IOUtils

Groups == ndJsonDeserialize(IOEnv.V_GROUPS)
Tabs == ndJsonDeserialize(IOEnv.V_TABS)
Runs == ndJsonDeserialize(IOEnv.V_RUNS)

TPats(c) == Groups[Runs[c].g].p
TMap(c) == Groups[Runs[c].g].map
TText(c) == Runs[c].s
TTab(c) == Tabs[Runs[c].g].tab
TRules(c) == Tabs[Runs[c].g].r
TFault(c) == Runs[c].f

VARIABLES k, bad, st
vars == <<compVars, k, bad, st>>
Run == Runs[case]

TInit == case \in 1..Len(Runs) /\ CompInit /\ k = 0 /\ bad = {} /\ st = "run"

From(i) == at[i + 1][1]
Seen(c, i) == IF c.k[i] = "n" THEN c.a[i] ELSE [j \in 1..Len(c.a[i]) |-> From(c.a[i][j])]

Silent == /\ st = "run"
          /\ LexStep \/ Parse(D!Shift \/ D!Detect \/ D!Pop \/ D!Inject \/ D!Accept \/ D!GiveUp)
          /\ UNCHANGED <<k, bad, st>>

Called ==
  /\ st = "run" /\ Parse(D!Reduce)
  /\ IF k = Len(Run.ev)
     THEN /\ bad' = bad \cup (IF Run.e = "cap" THEN {} ELSE IF Run.e = "panic" THEN {"panic"} ELSE {"order"})
          /\ st' = "end" /\ k' = k
     ELSE LET o == Run.ev[k + 1]
              same == o.r = call'.r /\ o.k = call'.k
              new == (IF same THEN {} ELSE {"order"})
                     \cup (IF same /\ \E i \in 1..Len(o.k) : o.a[i] # Seen(call', i) THEN {"args"} ELSE {})
                     \cup (IF o.n <= pulled /\ o.m <= Len(toks) THEN {} ELSE {"reads"})
          IN /\ bad' = bad \cup new
             /\ st' = IF same THEN "run" ELSE "end"
             /\ k' = k + 1

Finished ==
  /\ st = "run" /\ res.e # "run"
  /\ LET full == k = Len(Run.ev)
     IN bad' = bad
       \cup (IF Run.e \in {"panic", "hang", "cap"} THEN {"panic"} ELSE {})
       \cup (IF ~full THEN {"order"} ELSE {})
       \cup (IF {res.e, Run.e} \subseteq {"ok", "rnf", "red"} /\ (res.e # Run.e \/ res.v # Run.v) THEN {"result"} ELSE {})
       \cup (IF res.e = Run.e /\ (Run.n > pulled \/ Run.m > Len(toks)) THEN {"reads"} ELSE {})
  /\ st' = "end"
  /\ UNCHANGED <<compVars, k>>

Report ==
  /\ st = "end"
  /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", case, bad, k>>)
  /\ st' = "done"
  /\ UNCHANGED <<compVars, k, bad>>

TDone == st = "done" /\ UNCHANGED vars

TNext == Silent \/ Called \/ Finished \/ Report \/ TDone
TSpec == TInit /\ [][TNext]_vars
=============================================================================
