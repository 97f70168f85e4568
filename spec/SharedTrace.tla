----------------------------- MODULE SharedTrace ----------------------------
(***************************************************************************)
(* What the runs of a replayed schedule observed on the real code.  The    *)
(* specification is driven along the schedule; at its end every run must   *)
(* have observed exactly the first seen[i] events of what it observes      *)
(* alone (and, where the schedule says so, its own panic).                 *)
(***************************************************************************)
EXTENDS Shared

Runs == ndJsonDeserialize(IOEnv.V_RUNS)
VARIABLE c
Sched == Runs[c].s

TInit == /\ c \in 1..Len(Runs)
         /\ g = Runs[c].g
         /\ stk = <<>> /\ call = [i \in Ids |-> 1] /\ at = [i \in Ids |-> 0]
         /\ gone = {} /\ nest = 0 /\ harm = 0 /\ log = <<>> /\ seen = [i \in Ids |-> 0] /\ fin = FALSE

Follows == Len(log') <= Len(Sched) /\ (Len(log') > Len(log) => log'[Len(log')] = Sched[Len(log')])
TStep == /\ (Resume \/ Panic \/ (AtYield /\ \E i \in Ids : Enter(i) \/ Abandon(i)))
         /\ Follows
         /\ UNCHANGED c

Alone(i) == Groups[g].o[i]
Got(i) == Runs[c].o[i]
Right(i) == /\ Len(Got(i)) \in {seen[i], seen[i] + 1}
            /\ SubSeq(Got(i), 1, seen[i]) = SubSeq(Alone(i), 1, seen[i])
            /\ Len(Got(i)) > seen[i] => i \in gone /\ Got(i)[seen[i] + 1] = "panic planned"

TDone == /\ stk = <<>> /\ log = Sched /\ ~fin /\ fin' = TRUE
         /\ IF \A i \in Ids : Right(i) THEN TRUE ELSE PrintT(<<"REJECT", c, {"independent"}, Len(log)>>)
         /\ UNCHANGED <<c, g, stk, call, at, gone, nest, harm, log, seen>>

TSpec == TInit /\ [][TStep \/ TDone]_<<vars, c>> /\ WF_<<vars, c>>(TStep \/ TDone)
(* every schedule is one of the specification's, to its end *)
Whole == <>fin
=============================================================================
