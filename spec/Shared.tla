------------------------------- MODULE Shared -------------------------------
(***************************************************************************)
(* Several runs over one tokenizer or parser (C21).  A run is a sequence   *)
(* of calls; a call passes through a number of yield points (every item    *)
(* taken from the source, every callback), at which user code runs - and   *)
(* user code may use the same object again.  So at a yield point, or       *)
(* between calls, any run that is not itself in the middle of a call may   *)
(* be entered, be abandoned, or the user code may panic and unwind the     *)
(* innermost call.                                                         *)
(*                                                                         *)
(* What a run observes is seen, a prefix of what it observes alone: the    *)
(* shared object has no state, so nothing in the specification lets one    *)
(* run influence another.  The complete schedules TLC finds are replayed   *)
(* on the real code, and what each run observed there is compared with     *)
(* what it observes alone.                                                 *)
(*                                                                         *)
(* log: i enter run i, 0 go on, -i abandon run i, 99 panic                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Groups == ndJsonDeserialize(IOEnv.V_GROUPS)     \* .y[i] = yield points per call of run i
Nest == atoi(IOEnv.V_NEST)                      \* entries at yield points, at most
Harm == atoi(IOEnv.V_HARM)                      \* abandoned runs and panics, at most

VARIABLES g, stk, call, at, gone, nest, harm, log, seen, fin

vars == <<g, stk, call, at, gone, nest, harm, log, seen, fin>>
Y == Groups[g].y
Ids == 1..Len(Y)
Active == {stk[i] : i \in 1..Len(stk)}
Top == stk[Len(stk)]
Pop == SubSeq(stk, 1, Len(stk) - 1)
Over(i) == i \in gone \/ call[i] > Len(Y[i])

Init ==
  /\ g \in 1..Len(Groups)
  /\ stk = <<>> /\ call = [i \in Ids |-> 1] /\ at = [i \in Ids |-> 0]
  /\ gone = {} /\ nest = 0 /\ harm = 0 /\ log = <<>> /\ seen = [i \in Ids |-> 0] /\ fin = FALSE

Enter(i) ==
  /\ i \notin Active /\ ~Over(i)
  /\ (stk = <<>> \/ nest < Nest)
  /\ nest' = IF stk = <<>> THEN nest ELSE nest + 1
  /\ stk' = Append(stk, i)
  /\ log' = Append(log, i)
  /\ UNCHANGED <<g, call, at, gone, harm, seen, fin>>

(* the innermost call reaches its next yield point, or ends *)
Resume ==
  /\ stk # <<>>
  /\ LET t == Top IN
       /\ seen' = [seen EXCEPT ![t] = @ + 1]
       /\ IF at[t] < Y[t][call[t]]
          THEN /\ at' = [at EXCEPT ![t] = @ + 1]
               /\ log' = IF at[t] = 0 THEN log ELSE Append(log, 0)
               /\ UNCHANGED <<stk, call>>
          ELSE /\ at' = [at EXCEPT ![t] = 0] /\ call' = [call EXCEPT ![t] = @ + 1]
               /\ stk' = Pop
               /\ log' = IF at[t] = 0 THEN log ELSE Append(log, 0)
  /\ UNCHANGED <<g, gone, nest, harm, fin>>

AtYield == IF stk = <<>> THEN TRUE ELSE at[Top] > 0

Abandon(i) ==
  /\ harm < Harm /\ i \notin Active /\ ~Over(i) /\ call[i] > 1
  /\ gone' = gone \cup {i} /\ harm' = harm + 1
  /\ log' = Append(log, 0 - i)
  /\ UNCHANGED <<g, stk, call, at, nest, seen, fin>>

Panic ==
  /\ harm < Harm /\ stk # <<>> /\ at[Top] > 0
  /\ gone' = gone \cup {Top} /\ stk' = Pop /\ harm' = harm + 1
  /\ log' = Append(log, 99)
  /\ UNCHANGED <<g, call, at, nest, seen, fin>>

Done ==
  /\ stk = <<>> /\ \A i \in Ids : Over(i)
  /\ ~fin /\ fin' = TRUE
  /\ PrintT(<<"SCHED", g, log>>)
  /\ UNCHANGED <<g, stk, call, at, gone, nest, harm, log, seen>>

Next == \/ Resume \/ Panic \/ Done
        \/ AtYield /\ \E i \in Ids : Enter(i) \/ Abandon(i)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sum(s) == LET RECURSIVE F(_) F(i) == IF i = 0 THEN 0 ELSE s[i] + 1 + F(i - 1) IN F(Len(s))
Inv == /\ \A i \in Ids : seen[i] <= Sum(Y[i])
       /\ \A i \in Ids : ~Over(i) \/ i \in gone \/ seen[i] = Sum(Y[i])
       /\ \A i, j \in 1..Len(stk) : i # j => stk[i] # stk[j]
Ends == <>fin
=============================================================================
