-------------------------------- MODULE Same --------------------------------
(***************************************************************************)
(* Rebuilding (C08): construction is a function of its input.  For every   *)
(* pattern list / grammar the observations made on all builds, in all      *)
(* processes, are given; a build step is allowed only if it yields what    *)
(* the first one yielded.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Groups == ndJsonDeserialize(IOEnv.V_GROUPS)
VARIABLES g, k, first
vars == <<g, k, first>>
Init == g \in 1..Len(Groups) /\ k = 1 /\ first = Groups[g].o[1]
Build ==
  /\ k < Len(Groups[g].o)
  /\ k' = k + 1
  /\ IF Groups[g].o[k + 1] = first THEN TRUE ELSE PrintT(<<"REJECT", g, {"differs"}, k + 1>>)
  /\ UNCHANGED <<g, first>>
Spec == Init /\ [][Build]_vars
=============================================================================
