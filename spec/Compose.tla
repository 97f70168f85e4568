------------------------------ MODULE Compose -------------------------------
(***************************************************************************)
(* A tokenizer feeding a parser: chars.tokenize(t).flatten().parse(p).     *)
(* The parse loop (LRDriver) runs on the tokens handed over so far.  It    *)
(* demands another token only when it needs its lookahead and the token is *)
(* not there yet; only then does the tokenizer (Lexer) take steps, and     *)
(* only then are characters read.  Patterns may be mapped to no symbol:    *)
(* their tokens are dropped (flatten).                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS CPats(_),     \* case -> patterns
          CMap(_),      \* case -> symbol of each pattern, -1 for none
          CText(_),     \* case -> characters
          CTab(_),      \* case -> parser tables
          CRules(_),    \* case -> augmented rules
          CFault(_)     \* case -> failing reducer call

VARIABLES case,
          pos, lcur, pulled, live, best, phase,              \* tokenizer
          toks,                                              \* symbols handed over
          at,                                                \* <<from, to>> of each
          stk, cur, nxt, rd, rec, calls, res, call, er       \* parser

lexVars == <<pos, lcur, pulled, live, best, phase>>
drvVars == <<stk, cur, nxt, rd, rec, calls, res, call, er>>
compVars == <<case, lexVars, toks, at, drvVars>>

L == INSTANCE Lexer WITH cid <- case, cur <- lcur, Cases <- {}, Pats <- CPats, Src <- CText

(* the parse loop sees the pair of the case and the tokens so far as its case *)
pair == <<case, toks>>
PTab(c) == CTab(c[1])
PRules(c) == CRules(c[1])
PSrc(c) == c[2]
PFault(c) == CFault(c[1])
D == INSTANCE LRDriver WITH cid <- pair, Cases <- {}, Tab <- PTab, Rules <- PRules, Src <- PSrc, Fault <- PFault

CompInit ==
  /\ pos = 0 /\ lcur = 0 /\ pulled = 0 /\ live = {} /\ best = L!None /\ phase = "idle"
  /\ toks = <<>> /\ at = <<>>
  /\ stk = <<>> /\ cur = 1 /\ nxt = 0 /\ rd = 0 /\ rec = {} /\ calls = 0
  /\ res = [e |-> "run", v |-> 0] /\ call = D!NoCall /\ er = D!NoErr

(* the parse loop needs a token that has not been produced *)
Demand == D!Running /\ nxt >= Len(toks) /\ phase # "done"

LexStep ==
  /\ Demand
  /\ \/ (L!Call \/ L!Scan \/ L!ScanEnd \/ L!Stop) /\ UNCHANGED <<toks, at>>
     \/ /\ L!Emit
        /\ LET s == CMap(case)[best[1]]
           IN IF s < 0 THEN UNCHANGED <<toks, at>>
              ELSE /\ toks' = Append(toks, s)
                   /\ at' = Append(at, <<pos, pos + best[2]>>)
  /\ UNCHANGED drvVars

Parse(A) == ~Demand /\ A /\ UNCHANGED <<lexVars, at>>

CompNext == LexStep \/ Parse(D!DrvNext)
=============================================================================
