------------------------------ MODULE Overlap -------------------------------
(***************************************************************************)
(* Which overlaps between patterns exist: every reachable residual state   *)
(* in which several patterns accept is a string they share.  A pair        *)
(* <<hi, lo>> overlaps when some string is matched by both and by no       *)
(* pattern registered between them.  The pairs found are printed; a group  *)
(* with a reported set W is compared state by state: a missing report is   *)
(* rejected where the shared string is found.                              *)
(***************************************************************************)
EXTENDS Residual, Json, IOUtils

Groups == ndJsonDeserialize(IOEnv.V_GROUPS)

VARIABLES g, word
ovVars == <<g, word, live, cid, pos, cur, pulled, best, phase>>
OvView == <<g, live>>
NoCases == {}
NoOp(c) == <<>>

Neighbours(A) == {<<x, y>> \in A \X A : x > y /\ \A z \in A : ~(y < z /\ z < x)}

Note(l, w) == \A p \in Neighbours(Accepting(l)) : PrintT(<<"PAIR", g, p[1] - 1, p[2] - 1, w>>)

OvInit ==
  /\ g \in 1..Len(Groups) /\ live = Start(Groups[g].p) /\ word = <<>>
  /\ cid = 0 /\ pos = 0 /\ cur = 0 /\ pulled = 0 /\ best = None /\ phase = "ov"
OvStep ==
  /\ live # {}
  /\ \E c \in Alphabet(Groups[g].p) : live' = Advance(live, c) /\ word' = Append(word, c)
  /\ UNCHANGED <<g, cid, pos, cur, pulled, best, phase>>
OvSpec == OvInit /\ [][OvStep]_ovVars

(* evaluated once per distinct state *)
Noted == Note(live, word)
=============================================================================
