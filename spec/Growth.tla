------------------------------ MODULE Growth ------------------------------
(* Families of inputs a^n .. b^n over one grammar.  Along a family the driver is a machine that repeats the same steps once per  *)
(* unit of n, so whatever is counted about a run is an affine function of n, and how it ends does not depend on n.  Two small    *)
(* members (judged by LRTrace as well) determine the function; the third is far beyond every width and depth of the small ones.  *)
EXTENDS Integers, Sequences, IOUtils, Json, TLC

Rows == ndJsonDeserialize(IOEnv.V_ROWS)
Focus == {IOEnv.V_F1, IOEnv.V_F2, IOEnv.V_F3, IOEnv.V_F4}

VARIABLE i
(* the value at n[3] of the affine function through the first two points *)
At(n, v) == v[1] + ((n[3] - n[1]) * (v[2] - v[1])) \div (n[2] - n[1])
Kinds(r) ==
  (IF r.e[3] = r.e[1] /\ r.e[2] = r.e[1] THEN {} ELSE {"end"}) \cup
  (IF r.e[3] \in {"ok", "red", "rnf"} THEN {} ELSE {"panic"}) \cup
  (IF r.c[3] = At(r.n, r.c) THEN {} ELSE {"calls"}) \cup
  (IF r.p[3] = At(r.n, r.p) THEN {} ELSE {"reads"}) \cup
  (IF r.sp[3] = At(r.n, r.sp) THEN {} ELSE {"span"})
Init == i = 1
Next ==
  /\ i <= Len(Rows)
  /\ LET bad == Kinds(Rows[i]) \cap Focus IN IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", i, bad, 3>>)
  /\ i' = i + 1
Spec == Init /\ [][Next]_i
===========================================================================
