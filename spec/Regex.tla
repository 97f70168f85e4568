------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* Regular expressions over Unicode code points (integers).                *)
(*                                                                         *)
(*   <<"c", ranges>>      one character inside one of the ranges <<lo,hi>> *)
(*   <<"s", a, b>>        a followed by b                                  *)
(*   <<"o", a, b>>        a or b                                           *)
(*   <<"r", lo, hi, a>>   between lo and hi copies of a (hi = -1: no limit)*)
(*                                                                         *)
(* Two independent meanings are given: a denotational one (Ends) and an    *)
(* operational one by residuals (StepRe / NullRe), which the lexer state   *)
(* machine runs.  MCRegex.tla checks with TLC that they coincide.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

InClass(rs, c) == \E i \in 1..Len(rs) : rs[i][1] <= c /\ c <= rs[i][2]

(* Does the language contain the empty string? *)
RECURSIVE NullRe(_)
NullRe(r) ==
  CASE r[1] = "c" -> FALSE
    [] r[1] = "s" -> NullRe(r[2]) /\ NullRe(r[3])
    [] r[1] = "o" -> NullRe(r[2]) \/ NullRe(r[3])
    [] r[1] = "r" -> r[2] = 0 \/ NullRe(r[4])

Dec(n) == IF n > 0 THEN n - 1 ELSE n

(* What may follow after the character c: a set of continuations, each a   *)
(* sequence of expressions that still have to be matched one after another *)
RECURSIVE StepRe(_, _)
StepRe(r, c) ==
  CASE r[1] = "c" -> IF InClass(r[2], c) THEN {<<>>} ELSE {}
    [] r[1] = "s" -> {k \o <<r[3]>> : k \in StepRe(r[2], c)}
                     \cup (IF NullRe(r[2]) THEN StepRe(r[3], c) ELSE {})
    [] r[1] = "o" -> StepRe(r[2], c) \cup StepRe(r[3], c)
    [] r[1] = "r" -> IF r[3] = 0 THEN {}
                     ELSE LET rest == <<"r", Dec(r[2]), Dec(r[3]), r[4]>>
                          IN  {IF rest[3] = 0 THEN k ELSE k \o <<rest>> : k \in StepRe(r[4], c)}

RECURSIVE NullK(_)
NullK(k) == k = <<>> \/ (NullRe(Head(k)) /\ NullK(Tail(k)))

RECURSIVE StepK(_, _)
StepK(k, c) ==
  IF k = <<>> THEN {}
  ELSE {j \o Tail(k) : j \in StepRe(Head(k), c)}
       \cup (IF NullRe(Head(k)) THEN StepK(Tail(k), c) ELSE {})

StepSet(K, c) == UNION {StepK(k, c) : k \in K}
NullSet(K) == \E k \in K : NullK(k)

RECURSIVE AfterFrom(_, _, _)
AfterFrom(K, w, i) == IF i > Len(w) THEN K ELSE AfterFrom(StepSet(K, w[i]), w, i + 1)

(* Operational membership *)
Accepts(r, w) == NullSet(AfterFrom({<<r>>}, w, 1))

----------------------------------------------------------------------------
(* Denotational meaning: the set of positions j such that r matches        *)
(* w[i+1..j].                                                              *)
RECURSIVE Ends(_, _, _), EndsRep(_, _, _, _, _), EndsStar(_, _, _)
Ends(r, w, i) ==
  CASE r[1] = "c" -> IF i < Len(w) /\ InClass(r[2], w[i + 1]) THEN {i + 1} ELSE {}
    [] r[1] = "s" -> UNION {Ends(r[3], w, j) : j \in Ends(r[2], w, i)}
    [] r[1] = "o" -> Ends(r[2], w, i) \cup Ends(r[3], w, i)
    [] r[1] = "r" -> EndsRep(r[4], r[2], r[3], w, {i})
(* from a set of positions S: exactly lo copies, then up to hi - lo more *)
EndsRep(a, lo, hi, w, S) ==
  IF lo > 0 THEN EndsRep(a, lo - 1, Dec(hi), w, UNION {Ends(a, w, j) : j \in S})
  ELSE IF hi = 0 THEN S
  ELSE IF hi < 0 THEN EndsStar(a, w, S)
  ELSE S \cup EndsRep(a, 0, hi - 1, w, UNION {Ends(a, w, j) : j \in S})
EndsStar(a, w, S) ==
  LET T == S \cup UNION {Ends(a, w, j) : j \in S}
  IN  IF T = S THEN S ELSE EndsStar(a, w, T)

Matches(r, w) == Len(w) \in Ends(r, w, 0)
MatchesAt(r, w, i, j) == j \in Ends(r, w, i)
=============================================================================
