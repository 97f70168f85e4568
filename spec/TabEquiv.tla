------------------------------ MODULE TabEquiv ------------------------------
(***************************************************************************)
(* Product of the tables of a REAL parser with the canonical LR(1)         *)
(* automaton of its grammar.  If every reachable pair agrees on the action *)
(* for every lookahead, on all successors and on its error productions,    *)
(* the real parser behaves like the specification on EVERY input of any    *)
(* length.  A disagreement is printed with the symbols leading to it; the  *)
(* harness then looks for an input on which behaviour really differs.      *)
(***************************************************************************)
EXTENDS LR1, TLC, Json, IOUtils

Spec1 == ndJsonDeserialize(IOEnv.V_TABS)     \* LRGen
Real == ndJsonDeserialize(IOEnv.V_REAL)      \* lrtab

VARIABLES i, q, s, path, ok
vars == <<i, q, s, path, ok>>
View == <<i, q, s, ok>>

RRow(x, y) == Real[x].rows[y]
SRow(x, y) == Spec1[Real[x].g].tab[y]

RealAct(row, t) ==
  IF Has(row.go, t) THEN <<"shift", 0>>
  ELSE IF t = EOI /\ row.acc = 1 THEN <<"accept", 0>>
  ELSE IF Has(row.red, t) THEN <<"reduce", Get(row.red, t)>>
  ELSE <<"error", 0>>
SpecAct(row, t) == LET a == Act(row, t) IN IF a[1] = "shift" THEN <<"shift", 0>> ELSE a

Keys(seq) == {seq[k][1] : k \in 1..Len(seq)}
Lookaheads(a, b) == {t \in Keys(a.go) \cup Keys(a.red) \cup Keys(b.go) \cup Keys(b.red) \cup {EOI} : ~IsN(t)}
ToSet(seq) == {seq[k] : k \in 1..Len(seq)}

Agree(x, y, z) ==
  LET a == RRow(x, y) b == SRow(x, z) IN
  /\ a.acc # 2
  /\ Keys(a.go) = Keys(b.go)
  /\ \A t \in Lookaheads(a, b) : RealAct(a, t) = SpecAct(b, t)
  /\ ToSet(a.err) = ToSet(b.err)

Init == i \in 1..Len(Real) /\ q = 1 /\ s = 1 /\ path = <<>> /\ ok = Agree(i, 1, 1)
Step ==
  /\ ok
  /\ \E x \in Keys(RRow(i, q).go) :
       /\ q' = Get(RRow(i, q).go, x) /\ s' = Get(SRow(i, s).go, x)
       /\ path' = Append(path, x)
       /\ ok' = Agree(i, q', s')
  /\ UNCHANGED i
Report == ~ok /\ PrintT(<<"MISMATCH", Real[i].g, path>>) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Report]_vars
=============================================================================
