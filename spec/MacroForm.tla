----------------------------- MODULE MacroForm ------------------------------
(***************************************************************************)
(* What parser! accepts (C22).  An invocation lists token names and symbol *)
(* names, names a start symbol and gives rules.  A rule's key is a symbol  *)
(* name, or "|" for "the same symbol as the rule before".  The parts of a  *)
(* rule are <<kind, name>>: "n" a token by name, "r" a token by text, "s"  *)
(* a symbol, "e" the error symbol.  Named tokens, tokens by text and       *)
(* symbols are three separate name spaces.                                 *)
(*                                                                         *)
(* An invocation is well formed when every name it uses is listed in the   *)
(* right name space and no "|" lacks a rule before it.  A well-formed one  *)
(* means a grammar; that grammar is written out, its conflicts are what    *)
(* the macro has to announce.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Invs == ndJsonDeserialize(IOEnv.V_GROUPS)    \* [tok: <<kind, name>>s, sym: names, st: name, ru: <<key, parts>>s]

Listed(seq, x) == \E i \in 1..Len(seq) : seq[i] = x
Index(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x

PartOk(v, p) == CASE p[1] = "e" -> TRUE
                  [] p[1] = "s" -> Listed(v.sym, p[2])
                  [] OTHER -> Listed(v.tok, p)
KeyOk(v, k) == IF v.ru[k][1] = "|" THEN k > 1 ELSE Listed(v.sym, v.ru[k][1])
WellFormed(v) ==
  /\ Listed(v.sym, v.st)
  /\ \A k \in 1..Len(v.ru) : KeyOk(v, k) /\ \A j \in 1..Len(v.ru[k][2]) : PartOk(v, v.ru[k][2][j])

RECURSIVE Key(_, _)
Key(v, k) == IF v.ru[k][1] = "|" THEN Key(v, k - 1) ELSE v.ru[k][1]
Part(v, p) == CASE p[1] = "e" -> -1
                [] p[1] = "s" -> 999 + Index(v.sym, p[2])
                [] OTHER -> Index(v.tok, p) - 1
Meaning(v) == [st |-> 999 + Index(v.sym, v.st),
               g |-> [k \in 1..Len(v.ru) |-> <<999 + Index(v.sym, Key(v, k)), [j \in 1..Len(v.ru[k][2]) |-> Part(v, v.ru[k][2][j])]>>]]

VARIABLES i, done
Init == i \in 1..Len(Invs) /\ done = FALSE
Gen ==
  /\ ~done /\ done' = TRUE /\ i' = i
  /\ JsonSerialize(IOEnv.V_OUT \o "/" \o ToString(i) \o ".json",
       IF WellFormed(Invs[i]) THEN [ok |-> TRUE, m |-> Meaning(Invs[i])] ELSE [ok |-> FALSE, m |-> [st |-> 0, g |-> <<>>]])
Spec == Init /\ [][Gen]_<<i, done>>
=============================================================================
