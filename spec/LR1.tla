-------------------------------- MODULE LR1 ---------------------------------
(***************************************************************************)
(* The canonical LR(1) automaton of a grammar, its conflicts and their     *)
(* resolution.  Items are <<rule, dot, lookahead>>.  The error symbol is   *)
(* an ordinary terminal here.                                              *)
(***************************************************************************)
EXTENDS Grammar

RECURSIVE FirstFix(_, _, _)
FirstFix(R, nul, F) ==
  LET of(x) == IF IsN(x) THEN (IF x \in DOMAIN F THEN F[x] ELSE {}) ELSE {x}
      RECURSIVE seq(_, _)
      seq(rhs, k) == IF k > Len(rhs) THEN {}
                     ELSE of(rhs[k]) \cup (IF rhs[k] \in nul THEN seq(rhs, k + 1) ELSE {})
      G == [x \in DOMAIN F |-> F[x] \cup UNION {seq(R[i][2], 1) : i \in RulesOf(R, x)}]
  IN  IF G = F THEN F ELSE FirstFix(R, nul, G)

Context(R) ==
  LET nul == Nullable(R)
      N == {R[i][1] : i \in 1..Len(R)}
  IN [r |-> R, nul |-> nul, by |-> [x \in N |-> RulesOf(R, x)], first |-> FirstFix(R, nul, [x \in N |-> {}])]

RECURSIVE FirstOf(_, _, _, _)
FirstOf(ctx, rhs, k, la) ==
  IF k > Len(rhs) THEN {la}
  ELSE IF ~IsN(rhs[k]) THEN {rhs[k]}
  ELSE ctx.first[rhs[k]] \cup (IF rhs[k] \in ctx.nul THEN FirstOf(ctx, rhs, k + 1, la) ELSE {})

After(ctx, it) == LET rhs == ctx.r[it[1]][2] IN IF it[2] < Len(rhs) THEN rhs[it[2] + 1] ELSE EOI

RECURSIVE CloseFrom(_, _, _)
CloseFrom(ctx, done, todo) ==
  IF todo = {} THEN done
  ELSE LET fresh == UNION {{<<r, 0, l>> : r \in ctx.by[After(ctx, it)], l \in FirstOf(ctx, ctx.r[it[1]][2], it[2] + 2, it[3])}
                           : it \in {x \in todo : IsN(After(ctx, x))}}
           all == done \cup todo
       IN CloseFrom(ctx, all, fresh \ all)
Closure(ctx, kernel) == CloseFrom(ctx, {}, kernel)

StartKernel(ctx) == {<<Len(ctx.r), 0, EOI>>}
Symbols(ctx, I) == {After(ctx, it) : it \in {x \in I : x[2] < Len(ctx.r[x[1]][2])}}
Kernel(ctx, I, x) == {<<it[1], it[2] + 1, it[3]>> : it \in {y \in I : y[2] < Len(ctx.r[y[1]][2]) /\ After(ctx, y) = x}}

RECURSIVE SetToSeqD(_)
SetToSeqD(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetToSeqD(S \ {x})

IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
InSeq(s, x) == \E i \in 1..Len(s) : s[i] = x

(* kernels: all kernels found, in order; the first done ones are processed *)
RECURSIVE BuildFrom(_, _, _, _)
BuildFrom(ctx, kernels, items, trans) ==
  IF Len(items) = Len(kernels) THEN [kernels |-> kernels, items |-> items, trans |-> trans]
  ELSE
    LET I == Closure(ctx, kernels[Len(items) + 1])
        syms == SetToSeqD(Symbols(ctx, I))
        RECURSIVE add(_, _, _)
        add(k, ks, tr) ==
          IF k > Len(syms) THEN <<ks, tr>>
          ELSE LET K == Kernel(ctx, I, syms[k])
                   ks2 == IF InSeq(ks, K) THEN ks ELSE Append(ks, K)
               IN add(k + 1, ks2, Append(tr, <<syms[k], IndexOf(ks2, K)>>))
        res == add(1, kernels, <<>>)
    IN BuildFrom(ctx, res[1], Append(items, I), Append(trans, res[2]))

Automaton(ctx) == BuildFrom(ctx, <<StartKernel(ctx)>>, <<>>, <<>>)

----------------------------------------------------------------------------
(* Tables, as plain sequences so that they can be written out.             *)
CompleteItems(ctx, I) == {it \in I : it[2] = Len(ctx.r[it[1]][2])}
Reductions(ctx, I) == {it \in CompleteItems(ctx, I) : it[1] # Len(ctx.r)}
AcceptsIn(ctx, I) == \E it \in CompleteItems(ctx, I) : it[1] = Len(ctx.r)

ToSeq2(S) == LET RECURSIVE f(_)
                 f(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o f(T \ {x})
             IN f(S)

Row(ctx, A, s) ==
  LET I == A.items[s]
      las == SetToSeqD({it[3] : it \in Reductions(ctx, I)})
  IN [ go  |-> A.trans[s],
       red |-> [k \in 1..Len(las) |-> <<las[k], SetToSeqD({it[1] : it \in {x \in Reductions(ctx, I) : x[3] = las[k]}})>>],
       acc |-> IF AcceptsIn(ctx, I) THEN 1 ELSE 0,
       err |-> SetToSeqD({it[1] : it \in {x \in I : x[2] < Len(ctx.r[x[1]][2]) /\ After(ctx, x) = ErrSym}}) ]

Tables(ctx) == LET A == Automaton(ctx) IN [s \in 1..Len(A.items) |-> Row(ctx, A, s)]

----------------------------------------------------------------------------
(* Reading tables *)
Has(seq, x) == \E i \in 1..Len(seq) : seq[i][1] = x
Get(seq, x) == seq[CHOOSE i \in 1..Len(seq) : seq[i][1] = x][2]

Shifts(row, t) == Has(row.go, t)
Reduces(row, t) == IF Has(row.red, t) THEN Get(row.red, t) ELSE <<>>

(* C14: shift, else accept at the end, else the rule declared first *)
Act(row, t) ==
  IF Shifts(row, t) THEN <<"shift", Get(row.go, t)>>
  ELSE IF t = EOI /\ row.acc = 1 THEN <<"accept", 0>>
  ELSE IF Reduces(row, t) # <<>> THEN <<"reduce", Reduces(row, t)[1]>>
  ELSE <<"error", 0>>

(* C13: conflicts.  Each loser of a resolution, with how it lost.          *)
RowConflicts(row, goalRule) ==
  UNION { LET rs == row.red[k][2] t == row.red[k][1] IN
            IF Shifts(row, t) THEN {<<"sr", rs[i], 0>> : i \in 1..Len(rs)}
            ELSE {<<"rr", rs[1], rs[i]>> : i \in 2..Len(rs)}
                 \cup (IF t = EOI /\ row.acc = 1 THEN {<<"rr", rs[1], goalRule>>} ELSE {})
          : k \in 1..Len(row.red) }
(* every two rules that compete for the same lookahead in the same state   *)
RowRivals(row, goalRule) ==
  UNION { LET rs == row.red[k][2]
              all == {rs[i] : i \in 1..Len(rs)} \cup (IF row.red[k][1] = EOI /\ row.acc = 1 THEN {goalRule} ELSE {})
          IN {<<a, b>> \in all \X all : a < b}
          : k \in 1..Len(row.red) }
Rivals(tab, goalRule) == UNION {RowRivals(tab[s], goalRule) : s \in 1..Len(tab)}
Conflicts(tab, goalRule) == UNION {RowConflicts(tab[s], goalRule) : s \in 1..Len(tab)}
=============================================================================
