------------------------------ MODULE DfaEquiv ------------------------------
(***************************************************************************)
(* Product of the transition tables of a REAL built tokenizer with the     *)
(* residual automaton of its patterns.  Exploring it completely decides,   *)
(* for this pattern list, the attribution of EVERY string of any length.   *)
(* A disagreement is printed with a shortest string leading to it; the     *)
(* harness then runs that string through the real tokenizer, so that a     *)
(* mere change of table representation is not reported.                    *)
(***************************************************************************)
EXTENDS Residual, Json, IOUtils

Tabs == ndJsonDeserialize(IOEnv.V_TABS)

VARIABLES g, q, word, ok
eqVars == <<g, q, live, word, ok, cid, pos, cur, pulled, best, phase>>
EqView == <<g, q, live, ok>>

NoCases == {}
NoOp(c) == <<>>

TabCuts(t) == UNION {UNION {{t.goto[s][i][1], t.goto[s][i][2]} : i \in 1..Len(t.goto[s])} : s \in 1..Len(t.goto)}
Sigma(t) == Representatives(UNION {Cuts(t.p[i]) : i \in 1..Len(t.p)} \cup TabCuts(t))

(* real lookup: the last range starting at or before c, if c is inside it *)
RealNext(t, s, c) ==
  IF s = 0 THEN 0
  ELSE LET row == t.goto[s]
           hit == {i \in 1..Len(row) : row[i][1] <= c /\ c < row[i][2]}
           at == {i \in hit : ~\E y \in 1..Len(row) : row[i][1] < row[y][1] /\ row[y][1] <= c}
       IN IF at = {} THEN 0 ELSE row[CHOOSE i \in at : TRUE][3]
RealVerdict(t, s) == IF s = 0 THEN 0 ELSE t.end[s]

EqInit ==
  /\ g \in 1..Len(Tabs) /\ q = 1 /\ live = Start(Tabs[g].p) /\ word = <<>>
  /\ ok = (RealVerdict(Tabs[g], 1) = Verdict(live))
  /\ cid = 0 /\ pos = 0 /\ cur = 0 /\ pulled = 0 /\ best = None /\ phase = "eq"

EqStep ==
  /\ ok /\ ~(q = 0 /\ live = {})
  /\ \E c \in Sigma(Tabs[g]) :
       /\ q' = RealNext(Tabs[g], q, c)
       /\ live' = Advance(live, c)
       /\ word' = Append(word, c)
       /\ ok' = (RealVerdict(Tabs[g], q') = Verdict(live'))
  /\ UNCHANGED <<g, cid, pos, cur, pulled, best, phase>>
EqReport ==
  /\ ~ok
  /\ PrintT(<<"MISMATCH", Tabs[g].g, word>>)
  /\ UNCHANGED eqVars
EqSpec == EqInit /\ [][EqStep \/ EqReport]_eqVars
=============================================================================
