------------------------------ MODULE Support -------------------------------
(***************************************************************************)
(* Which pattern lists build (C06).  Patterns are trees as in Regex with   *)
(* two more leaves: <<"v", text>> a construct that is supported and        *)
(* <<"x", text>> one that is not (invalid syntax, anchor, word boundary,   *)
(* byte class).  A list builds iff no pattern contains an "x", wherever.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Groups == ndJsonDeserialize(IOEnv.V_GROUPS)

RECURSIVE Supported(_)
Supported(r) ==
  CASE r[1] = "x" -> FALSE
    [] r[1] \in {"v", "c"} -> TRUE
    [] r[1] \in {"s", "o"} -> Supported(r[2]) /\ Supported(r[3])
    [] r[1] = "r" -> Supported(r[4])
Builds(ps) == \A i \in 1..Len(ps) : Supported(ps[i])

VARIABLES g, phase
Init == g \in 1..Len(Groups) /\ phase = "run"
Check ==
  /\ phase = "run" /\ phase' = "done" /\ g' = g
  /\ LET want == IF Builds(Groups[g].p) THEN "ok" ELSE "error"
         got == Groups[g].v
     IN IF got = want THEN TRUE ELSE PrintT(<<"REJECT", g, {got}, 0>>)
Spec == Init /\ [][Check]_<<g, phase>>
=============================================================================
