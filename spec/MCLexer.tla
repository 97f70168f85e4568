------------------------------ MODULE MCLexer -------------------------------
(***************************************************************************)
(* Exhaustive check of the lexer design: every list of patterns from a     *)
(* finite set, every input up to a bound.  The properties are stated with  *)
(* the denotational meaning (Ends), not with the residuals the machine     *)
(* runs on.  out records the tokens handed out; hist the read counts.      *)
(***************************************************************************)
EXTENDS Lexer, SequencesExt
CONSTANTS MaxPats, MaxLen, MaxOut

a == <<"c", <<<<1, 1>>>>>>
b == <<"c", <<<<2, 2>>>>>>
ab == <<"c", <<<<1, 2>>>>>>
Pool == {a, b, ab, <<"s", a, b>>, <<"r", 1, -1, a>>, <<"s", <<"r", 0, -1, a>>, b>>, <<"r", 2, 3, ab>>,
         <<"r", 0, 1, a>>, <<"r", 0, -1, <<"s", a, b>>>>}

Lists == UNION {[1..n -> Pool] : n \in 1..MaxPats}
Inputs == UNION {[1..n -> {1, 2}] : n \in 0..MaxLen}
MCCases == Lists \X Inputs
MCPats(c) == c[1]
MCSrc(c) == c[2]

VARIABLE out
mcVars == <<lexVars, out>>
MCInit == LexInit /\ out = <<>>
MCNext ==
  \/ (Call /\ Len(out) < MaxOut /\ UNCHANGED out)
  \/ ((Scan \/ ScanEnd \/ Stop) /\ UNCHANGED out)
  \/ (Emit /\ out' = Append(out, [p |-> best[1], a |-> pos, b |-> pos', u |-> pulled]))
  \/ (Finished /\ UNCHANGED out)
MCSpec == MCInit /\ [][MCNext]_mcVars /\ WF_mcVars(MCNext)

P == Pats(cid)
S == Src(cid)
MatchingEnds(i) == UNION {Ends(P[p], S, i) : p \in 1..Len(P)}

TypeOK == /\ pos \in 0..Len(S) /\ cur \in pos..Len(S) /\ pulled \in cur..Len(S)
          /\ phase \in {"idle", "scan", "emit", "done"}
\* C01/C02: a token ends at the largest position any pattern can reach from its start
Longest == \A i \in 1..Len(out) : \A j \in MatchingEnds(out[i].a) : j <= out[i].b
Member == \A i \in 1..Len(out) : out[i].b \in Ends(P[out[i].p], S, out[i].a)
\* C03
Earliest == \A i \in 1..Len(out) : \A p \in 1..(out[i].p - 1) : out[i].b \notin Ends(P[p], S, out[i].a)
\* C04
Tiling == /\ (out # <<>> => out[1].a = 0)
          /\ \A i \in 1..(Len(out) - 1) : out[i].b = out[i + 1].a
          /\ (out # <<>> /\ phase \in {"idle", "scan"} => out[Len(out)].b = pos)
EndsRight == phase = "done" => MatchingEnds(pos) = {}
\* C05: nothing is read beyond the first character after which no pattern can match any longer text
CouldExtend(i, n) == \E p \in 1..Len(P) : AfterFrom({<<P[p]>>}, SubSeq(S, i + 1, n), 1) # {}
OnDemand == \A i \in 1..Len(out) :
              \/ out[i].u = (IF i = 1 THEN 0 ELSE out[i - 1].u)
              \/ CouldExtend(out[i].a, out[i].u - 1)
\* the stream always gets somewhere: it ends unless a pattern matches the empty string
Progress == (\A p \in 1..Len(P) : ~NullRe(P[p])) ~> (phase = "done" \/ Len(out) >= MaxOut)
=============================================================================
