------------------------------ MODULE Automata ------------------------------
(***************************************************************************)
(* How the tokenizer is built: an automaton with silent steps per pattern, *)
(* wired operator by operator; the set construction over character ranges  *)
(* for all patterns together; merging of states that cannot be told apart. *)
(*                                                                         *)
(* A silent automaton is [n, eps, mv, b, e]: nodes 1..n, silent steps      *)
(* <<i, j>>, moves <<i, lo, hi, j>> (lo <= c < hi), first and last node.   *)
(* A repetition adds silent steps between the first and the last node of   *)
(* its operand, which is right only if no step of the operand re-enters    *)
(* the first node or leaves the last: Isolated makes that so.  With        *)
(* Isolated = FALSE the construction is the one the repository had before  *)
(* the repair of finding F1; MCAutomataF1 then finds (a{2,})? matching "a".*)
(***************************************************************************)
EXTENDS Regex
CONSTANT Isolated

Max2(a, b) == IF a > b THEN a ELSE b
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
Shift(N, k) == [n |-> N.n, eps |-> {<<p[1] + k, p[2] + k>> : p \in N.eps},
                mv |-> {<<m[1] + k, m[2], m[3], m[4] + k>> : m \in N.mv}, b |-> N.b + k, e |-> N.e + k]

OwnBegin(N) == IF (\E p \in N.eps : p[2] = N.b) \/ (\E m \in N.mv : m[4] = N.b)
               THEN [N EXCEPT !.n = N.n + 1, !.b = N.n + 1, !.eps = N.eps \cup {<<N.n + 1, N.b>>}]
               ELSE N
OwnEnd(N) == IF (\E p \in N.eps : p[1] = N.e) \/ (\E m \in N.mv : m[1] = N.e)
             THEN [N EXCEPT !.n = N.n + 1, !.e = N.n + 1, !.eps = N.eps \cup {<<N.e, N.n + 1>>}]
             ELSE N
Isolate(N) == IF Isolated THEN OwnEnd(OwnBegin(N)) ELSE N

(* k copies one after another *)
RECURSIVE ChainNodes(_, _)
ChainNodes(N, k) ==
  IF k = 1 THEN N
  ELSE LET P == ChainNodes(N, k - 1)
           Q == Shift(N, (k - 1) * N.n)
       IN [n |-> P.n + N.n, eps |-> P.eps \cup Q.eps \cup {<<P.e, Q.b>>}, mv |-> P.mv \cup Q.mv, b |-> P.b, e |-> Q.e]
EndOf(N, i) == N.e + (i - 1) * N.n         \* last node of the i-th copy

Repeat(lo, hi, N) ==
  CASE hi = 0 -> [n |-> 1, eps |-> {}, mv |-> {}, b |-> 1, e |-> 1]
    [] lo = 0 /\ hi = -1 -> [N EXCEPT !.eps = N.eps \cup {<<N.e, N.b>>}, !.e = N.b]
    [] lo = 1 /\ hi = -1 -> [N EXCEPT !.eps = N.eps \cup {<<N.e, N.b>>}]
    [] lo > 1 /\ hi = -1 -> LET C == ChainNodes(N, lo + 1)
                                S == Shift(N, lo * N.n)
                            IN [C EXCEPT !.eps = C.eps \cup {<<S.e, S.b>>}, !.e = S.b]
    [] OTHER -> LET C == ChainNodes(N, hi)
                    skip == {<<EndOf(N, i), C.e>> : i \in Max2(lo, 1)..(hi - 1)}
                            \cup (IF lo = 0 THEN {<<C.b, C.e>>} ELSE {})
                IN [C EXCEPT !.eps = C.eps \cup skip]

RECURSIVE Build(_)
Build(r) ==
  CASE r[1] = "c" -> [n |-> 2, eps |-> {}, mv |-> {<<1, r[2][i][1], r[2][i][2] + 1, 2>> : i \in 1..Len(r[2])}, b |-> 1, e |-> 2]
    [] r[1] = "s" -> LET A == Build(r[2])
                         B == Shift(Build(r[3]), A.n)
                     IN [n |-> A.n + B.n, eps |-> A.eps \cup B.eps \cup {<<A.e, B.b>>}, mv |-> A.mv \cup B.mv, b |-> A.b, e |-> B.e]
    [] r[1] = "o" -> LET A == Shift(Build(r[2]), 2)
                         B == Shift(Build(r[3]), 2 + A.n)
                     IN [n |-> 2 + A.n + B.n, eps |-> A.eps \cup B.eps \cup {<<1, A.b>>, <<1, B.b>>, <<A.e, 2>>, <<B.e, 2>>},
                         mv |-> A.mv \cup B.mv, b |-> 1, e |-> 2]
    [] r[1] = "r" -> Repeat(r[2], r[3], Isolate(Build(r[4])))

(* all patterns in one automaton: node 1 leads to all of them; ends[i] is the last node of pattern i *)
RECURSIVE Union(_, _)
Union(ps, i) ==
  IF i = 0 THEN [n |-> 1, eps |-> {}, mv |-> {}, ends |-> <<>>]
  ELSE LET U == Union(ps, i - 1)
           A == Shift(Build(ps[i]), U.n)
       IN [n |-> U.n + A.n, eps |-> U.eps \cup A.eps \cup {<<1, A.b>>}, mv |-> U.mv \cup A.mv, ends |-> Append(U.ends, A.e)]

----------------------------------------------------------------------------
(* Set construction.                                                       *)
RECURSIVE Closure(_, _)
Closure(N, S) == LET T == S \cup {p[2] : p \in {p \in N.eps : p[1] \in S}} IN IF T = S THEN S ELSE Closure(N, T)

(* The moves out of a set of nodes, cut so that they do not overlap: the   *)
(* cut points are all beginnings and ends of moves.                        *)
Moves(N, S) == {m \in N.mv : m[1] \in S}
Cuts(M) == {m[2] : m \in M} \cup {m[3] : m \in M}
Upper(C, x) == MinSet({y \in C : y > x})
Split(N, S) ==
  LET M == Moves(N, S)
      C == Cuts(M)
      at(x) == {m[4] : m \in {m \in M : m[2] <= x /\ x < m[3]}}
  IN  {<<x, Upper(C, x), Closure(N, at(x))>> : x \in {x \in C : at(x) # {}}}

RECURSIVE Explore(_, _, _)
Explore(N, todo, done) ==
  IF todo = {} THEN done
  ELSE LET new == UNION {{s[3] : s \in Split(N, S)} : S \in todo}
       IN Explore(N, new \ (done \cup todo), done \cup todo)

Ending(N, S) == LET E == {i \in 1..Len(N.ends) : N.ends[i] \in S} IN IF E = {} THEN 0 ELSE MinSet(E)

(* [q, next, end, begin]: states are sets of nodes *)
Subset(ps) ==
  LET N == Union(ps, Len(ps))
      b == Closure(N, {1})
      Q == Explore(N, {b}, {})
  IN [q |-> Q, next |-> [S \in Q |-> Split(N, S)], end |-> [S \in Q |-> Ending(N, S)], begin |-> b,
      warn |-> {<<j, i>> \in (1..Len(ps)) \X (1..Len(ps)) : j > i /\ \E S \in Q : {N.ends[i], N.ends[j]} \subseteq S
                                                              /\ \A k \in (i + 1)..(j - 1) : N.ends[k] \notin S}]

----------------------------------------------------------------------------
(* Merging.  Adjacent ranges that lead to the same group become one before *)
(* states are compared: how a range was cut must not matter.               *)
RECURSIVE Glue(_)
Glue(R) ==
  LET P == {pq \in R \X R : pq[1][2] = pq[2][1] /\ pq[1][3] = pq[2][3]}
  IN IF P = {} THEN R
     ELSE LET pq == CHOOSE pq \in P : TRUE
          IN Glue((R \ {pq[1], pq[2]}) \cup {<<pq[1][1], pq[2][2], pq[1][3]>>})
Seen(D, g, S) == Glue({<<t[1], t[2], g[t[3]]>> : t \in D.next[S]})

(* g: state -> group, a group is named by a set of states *)
RECURSIVE Refine(_, _)
Refine(D, g) ==
  LET h == [S \in D.q |-> {T \in D.q : g[T] = g[S] /\ Seen(D, g, T) = Seen(D, g, S)}]
  IN IF h = g THEN g ELSE Refine(D, h)
Groups0(D) == [S \in D.q |-> {T \in D.q : D.end[T] = D.end[S]}]

Minimal(D) ==
  LET g == Refine(D, Groups0(D))
      G == {g[S] : S \in D.q}
      of(H) == CHOOSE S \in H : TRUE
  IN [q |-> G, next |-> [H \in G |-> Seen(D, g, of(H))], end |-> [H \in G |-> D.end[of(H)]], begin |-> g[D.begin], warn |-> D.warn]

Dead == {}                                   \* no state, no group
Go(D, s, c) == IF s = Dead THEN Dead
               ELSE LET T == {t \in D.next[s] : t[1] <= c /\ c < t[2]} IN IF T = {} THEN Dead ELSE (CHOOSE t \in T : TRUE)[3]
=============================================================================
