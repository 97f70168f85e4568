------------------------------ MODULE MCRegex -------------------------------
(* All expressions of bounded size, all words of bounded length: residual   *)
(* semantics and denotational semantics agree, and residuals compose.       *)
EXTENDS Regex, TLC
CONSTANTS Depth, WordLen
VARIABLES r, w, K

Leaf == {<<"c", <<<<1, 1>>>>>>, <<"c", <<<<2, 2>>>>>>, <<"c", <<<<1, 2>>>>>>, <<"c", <<>>>>}
Reps == {<<0, 1>>, <<0, -1>>, <<1, -1>>, <<2, 2>>, <<1, 3>>, <<0, 0>>, <<2, -1>>}
RECURSIVE Res(_)
Res(d) == IF d = 0 THEN Leaf
          ELSE LET S == Res(d - 1) IN
               S \cup {<<"r", n[1], n[2], a>> : n \in Reps, a \in S}
                 \cup {<<t, a, b>> : t \in {"s", "o"}, a \in S, b \in Leaf}
                 \cup {<<"s", a, b>> : a \in Leaf, b \in S}

Init == r \in Res(Depth) /\ w = <<>> /\ K = {<<r>>}
Next == Len(w) < WordLen /\ \E c \in {1, 2} : w' = Append(w, c) /\ K' = StepSet(K, c) /\ r' = r
Spec == Init /\ [][Next]_<<r, w, K>>

Agree == NullSet(K) <=> Matches(r, w)
(* every split of the word passes through matching positions *)
Sound == \A i \in 0..Len(w) : (i \in Ends(r, w, 0)) <=> Accepts(r, SubSeq(w, 1, i))
(* dead residuals stay dead *)
Dead == (K = {}) => ~Matches(r, w)
=============================================================================
