------------------------------- MODULE LRGen --------------------------------
(* Writes the canonical LR(1) tables of every grammar of a file, one file   *)
(* per grammar, together with its conflicts.  One TLC state per grammar, so *)
(* the grammars are spread over the workers.                                *)
EXTENDS LR1, TLC, Json, IOUtils

Groups == ndJsonDeserialize(IOEnv.V_GROUPS)
VARIABLES g, done
Init == g \in 1..Len(Groups) /\ done = 0
Gen ==
  /\ done = 0
  /\ LET R == Aug(Groups[g].g, Groups[g].st)
         tab == Tables(Context(R))
     IN /\ JsonSerialize(IOEnv.V_OUT \o "/" \o ToString(g) \o ".json",
             [g |-> g, r |-> R, tab |-> tab, conf |-> ToSeq2(Conflicts(tab, Len(R))), riv |-> ToSeq2(Rivals(tab, Len(R))),
              prod |-> IF AllProductive(R) THEN 1 ELSE 0])
        /\ done' = Len(tab)
  /\ g' = g
Spec == Init /\ [][Gen]_<<g, done>>
=============================================================================
