------------------------------ MODULE LRTrace -------------------------------
(***************************************************************************)
(* Validates recorded parses against LRDriver.  Every recorded reducer     *)
(* call must be the specification's next Reduce; the recorded result must  *)
(* be the specification's result.  What differs is named in bad:           *)
(*   order   another reducer was called, or one was missing / too many     *)
(*   args    the reducer got other children or other tokens                *)
(*   span    the reducer got another token span for an error               *)
(*   reads   more tokens had been read                                     *)
(*   result  another result (value, failure)                               *)
(*   accept  accepted or refused against the specification, whatever the   *)
(*           reducer calls were                                            *)
(*   fault   a failing reducer did not end the parse with its error        *)
(*   panic   panicked, or did not stop                                     *)
(***************************************************************************)
EXTENDS LRDriver, TLC, Json, IOUtils

Groups == ndJsonDeserialize(IOEnv.V_TABS)      \* tables from LRGen, one per group
Runs == ndJsonDeserialize(IOEnv.V_RUNS)
Focus == {IOEnv.V_F1, IOEnv.V_F2, IOEnv.V_F3, IOEnv.V_F4}

VARIABLES k, bad, phase
vars == <<drv, k, bad, phase>>

TCases == 1..Len(Runs)
TTab(c) == Groups[Runs[c].g].tab
TRules(c) == Groups[Runs[c].g].r
TSrc(c) == Runs[c].s
TFault(c) == Runs[c].f
Run == Runs[cid]

TInit == DrvInit /\ k = 0 /\ bad = {} /\ phase = "run"

Silent == /\ phase = "run"
          /\ Shift \/ Detect \/ Pop \/ Inject
          /\ UNCHANGED <<k, bad, phase>>

(* whether to go on without the recorded calls, for the sake of the verdict *)
Rest == IF "accept" \in Focus /\ Run.e \in {"ok", "rnf"} THEN "tail" ELSE "end"
OnTheirOwn ==
        /\ phase = "tail" /\ res.e = "run"
        /\ Shift \/ Detect \/ Pop \/ Inject \/ Reduce \/ Accept \/ GiveUp
        /\ UNCHANGED <<k, bad, phase>>
Verdict == /\ phase = "tail" /\ res.e # "run"
           /\ bad' = bad \cup (IF res.e # Run.e THEN {"accept"} ELSE {})
           /\ phase' = "end"
           /\ UNCHANGED <<drv, k>>

(* a reducer call; the recorded one is the next of the run *)
Called ==
  /\ phase = "run" /\ Reduce
  /\ IF k = Len(Run.ev)
     THEN /\ bad' = bad \cup (IF Run.e = "cap" THEN {} ELSE IF Run.e = "panic" THEN {"panic"}
                              ELSE IF Run.e = "red" THEN {"fault"} ELSE {"order"})
          /\ phase' = Rest /\ k' = k
     ELSE LET o == Run.ev[k + 1]
              same == o.r = call'.r /\ o.k = call'.k
              new == (IF same THEN {} ELSE {"order"})
                     \cup (IF same /\ \E i \in 1..Len(o.k) : o.k[i] # "e" /\ o.a[i] # call'.a[i] THEN {"args"} ELSE {})
                     \cup (IF same /\ \E i \in 1..Len(o.k) : o.k[i] = "e" /\ o.a[i] # call'.a[i] THEN {"span"} ELSE {})
                     \cup (IF o.n <= call'.n THEN {} ELSE {"reads"})
          IN /\ bad' = bad \cup new
             /\ phase' = IF same THEN "run" ELSE Rest
             /\ k' = k + 1

Finished ==
  /\ phase = "run" /\ res.e # "run"
  /\ LET full == k = Len(Run.ev)
     IN bad' = bad
       \cup (IF Run.e \in {"panic", "hang"} THEN {"panic"} ELSE {})
       \cup (IF Run.e = "cap" THEN {"panic"} ELSE {})
       \cup (IF res.e = "red" /\ ~(Run.e = "red" /\ Run.v = res.v /\ full /\ Run.n <= rd) THEN {"fault"} ELSE {})
       \cup (IF Run.e = "red" /\ res.e # "red" THEN {"fault"} ELSE {})
       \cup (IF res.e # "red" /\ ~full THEN {"order"} ELSE {})
       \cup (IF {res.e, Run.e} \subseteq {"ok", "rnf"} /\ (res.e # Run.e \/ (res.e = "ok" /\ res.v # Run.v)) THEN {"result"} ELSE {})
       \cup (IF {res.e, Run.e} \subseteq {"ok", "rnf"} /\ res.e # Run.e THEN {"accept"} ELSE {})
       \cup (IF res.e = Run.e /\ Run.n > rd THEN {"reads"} ELSE {})
  /\ phase' = "end"
  /\ UNCHANGED <<drv, k>>

End == /\ phase = "run" /\ (Accept \/ GiveUp) /\ UNCHANGED <<k, bad, phase>>

Report ==
  /\ phase = "end"
  /\ IF bad \cap Focus = {} THEN TRUE ELSE PrintT(<<"REJECT", cid, bad, k>>)
  /\ phase' = "done"
  /\ UNCHANGED <<drv, k, bad>>

Done == phase = "done" /\ UNCHANGED vars

TNext == Silent \/ OnTheirOwn \/ Verdict \/ Called \/ End \/ Finished \/ Report \/ Done
TSpec == TInit /\ [][TNext]_vars
=============================================================================
