------------------------------ MODULE Residual ------------------------------
(***************************************************************************)
(* The automaton a pattern list denotes: states are sets of <<pattern,     *)
(* continuation>>, and it is enough to follow one character out of every   *)
(* interval on which all character classes are constant.                   *)
(***************************************************************************)
EXTENDS Lexer

MaxChar == 1114111
Scalar(c) == IF c >= 55296 /\ c <= 57343 THEN 57344 ELSE c

RECURSIVE Cuts(_)
Cuts(r) ==
  CASE r[1] = "c" -> UNION {{r[2][i][1], r[2][i][2] + 1} : i \in 1..Len(r[2])}
    [] r[1] \in {"s", "o"} -> Cuts(r[2]) \cup Cuts(r[3])
    [] r[1] = "r" -> Cuts(r[4])

Representatives(C) == {Scalar(c) : c \in {x \in C \cup {0} : x <= MaxChar}}
Alphabet(P) == Representatives(UNION {Cuts(P[i]) : i \in 1..Len(P)})

(* the pattern a string leading to L is attributed to; 0: no token *)
Verdict(L) == LET A == Accepting(L) IN IF A = {} THEN 0 ELSE MinOf(A)
=============================================================================
