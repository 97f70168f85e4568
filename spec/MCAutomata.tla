----------------------------- MODULE MCAutomata -----------------------------
(* For every list of small patterns: the automaton of module Automata, run  *)
(* in step with the residuals of the patterns, accepts the same words for   *)
(* the same pattern, is deterministic, and no two of its states accept the  *)
(* same continuations.                                                      *)
EXTENDS Automata, TLC
CONSTANTS Depth, Two
VARIABLES ps, D, s, Ks

Leaf == {<<"c", <<<<1, 1>>>>>>, <<"c", <<<<2, 2>>>>>>, <<"c", <<<<1, 2>>>>>>, <<"c", <<<<1, 1>>, <<3, 3>>>>>>, <<"c", <<>>>>}
Reps == {<<0, 1>>, <<0, -1>>, <<1, -1>>, <<2, 2>>, <<1, 3>>, <<0, 0>>, <<2, -1>>, <<0, 2>>, <<2, 3>>}
RECURSIVE Res(_)
Res(d) == IF d = 0 THEN Leaf
          ELSE LET S == Res(d - 1) IN
               S \cup {<<"r", n[1], n[2], a>> : n \in Reps, a \in S}
                 \cup {<<t, a, b>> : t \in {"s", "o"}, a \in S, b \in Leaf}
                 \cup {<<"s", a, b>> : a \in Leaf, b \in S}
Lists == {<<r>> : r \in Res(Depth)} \cup (IF Two THEN {<<x, y>> : x \in Res(1), y \in Res(1)} ELSE {})

Init == /\ ps \in Lists
        /\ D = Minimal(Subset(ps))
        /\ s = D.begin
        /\ Ks = [i \in 1..Len(ps) |-> {<<ps[i]>>}]
Next == \E c \in 0..4 : /\ s' = Go(D, s, c)
                        /\ Ks' = [i \in 1..Len(ps) |-> StepSet(Ks[i], c)]
                        /\ UNCHANGED <<ps, D>>
Spec == Init /\ [][Next]_<<ps, D, s, Ks>>

Wins == LET E == {i \in 1..Len(ps) : NullSet(Ks[i])} IN IF E = {} THEN 0 ELSE MinSet(E)
Agree == (IF s = Dead THEN 0 ELSE D.end[s]) = Wins
Deterministic == s # Dead => \A x, y \in D.next[s] : x # y => x[2] <= y[1] \/ y[2] <= x[1]
(* a pair of patterns is reported iff both match the word read so far, with none between, for some word *)
Warned == \A i, j \in 1..Len(ps) : (i < j /\ NullSet(Ks[i]) /\ NullSet(Ks[j]) /\ \A k \in (i + 1)..(j - 1) : ~NullSet(Ks[k]))
                                    => <<j, i>> \in D.warn
=============================================================================
