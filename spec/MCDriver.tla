------------------------------ MODULE MCDriver ------------------------------
(***************************************************************************)
(* The parse loop on every word up to a given length, for a file of        *)
(* grammars with their tables.  The specification itself is checked here:  *)
(*   Exact        without error productions: accepts exactly the language  *)
(*   Unaffected   a sentence is accepted without any recovery              *)
(*   Ends         every parse ends within a bound                          *)
(*   Covered      no token read so far is missing: each one is on the      *)
(*                stack, below a value, or in an error span                *)
(*   OneRead      at most one token beyond what is accounted for           *)
(***************************************************************************)
EXTENDS LRDriver, TLC, Json, IOUtils

Groups == ndJsonDeserialize(IOEnv.V_TABS)
MaxLen == atoi(IOEnv.V_LEN)

VARIABLES steps, covs, recovered
vars == <<drv, steps, covs, recovered>>

Terms == [g \in 1..Len(Groups) |->
            UNION {{x \in {Groups[g].r[i][2][j] : j \in 1..Len(Groups[g].r[i][2])} : ~IsN(x) /\ x # ErrSym} : i \in 1..Len(Groups[g].r)} \cup {7}]
Langs == [g \in 1..Len(Groups) |-> Lang(Groups[g].r, MaxLen)]
HasErr == [g \in 1..Len(Groups) |-> \E i \in 1..Len(Groups[g].r) : \E j \in 1..Len(Groups[g].r[i][2]) : Groups[g].r[i][2][j] = ErrSym]
Clean == [g \in 1..Len(Groups) |-> Len(Groups[g].conf) = 0]

(* cid is the pair of the grammar and the word; the word grows from init states *)
MTab(c) == Groups[c[1]].tab
MRules(c) == Groups[c[1]].r
MSrc(c) == c[2]
NoFault(c) == 0
NoCases == {}

Reset == /\ stk = <<>> /\ cur = 1 /\ nxt = 0 /\ rd = 0 /\ rec = {} /\ calls = 0
         /\ res = [e |-> "run", v |-> 0] /\ call = NoCall /\ er = NoErr
         /\ steps = 0 /\ covs = <<>> /\ recovered = FALSE

MInit == /\ \E g \in 1..Len(Groups) : cid = <<g, <<>>>>
         /\ Reset

(* another word: extend the finished one *)
Extend ==
  /\ res.e # "run" /\ Len(cid[2]) < MaxLen
  /\ \E t \in Terms[cid[1]] : cid' = <<cid[1], Append(cid[2], t)>>
  /\ stk' = <<>> /\ cur' = 1 /\ nxt' = 0 /\ rd' = 0 /\ rec' = {} /\ calls' = 0
  /\ res' = [e |-> "run", v |-> 0] /\ call' = NoCall /\ er' = NoErr
  /\ steps' = 0 /\ covs' = <<>> /\ recovered' = FALSE

Cut(s, n) == SubSeq(s, 1, Len(s) - n)
Joined(s, n) == UNION {s[i] : i \in (Len(s) - n + 1)..Len(s)}

MStep ==
  /\ \/ Shift /\ covs' = Append(covs, {nxt}) /\ recovered' = recovered
     \/ Reduce /\ LET n == Len(call'.k) IN covs' = Append(Cut(covs, n), Joined(covs, n)) /\ recovered' = recovered
     \/ (Accept \/ GiveUp) /\ covs' = covs /\ recovered' = recovered
     \/ Detect /\ covs' = covs /\ recovered' = TRUE
     \/ Pop /\ covs' = Cut(covs, 1) /\ recovered' = recovered
     \/ Inject /\ covs' = Append(covs, Min(er.head, er.ehead)..(er.tail)) /\ recovered' = recovered
  /\ steps' = steps + 1

MNext == MStep \/ Extend
MSpec == MInit /\ [][MNext]_vars

Sentence == cid[2] \in Langs[cid[1]]
Exact == res.e # "run" /\ ~HasErr[cid[1]] /\ Clean[cid[1]] => (res.e = "ok") = Sentence
Unaffected == res.e # "run" /\ Clean[cid[1]] /\ Sentence => res.e = "ok" /\ ~recovered
Ends == Clean[cid[1]] => steps <= 40 + 60 * (Len(cid[2]) + 1)
Covered == (~er.on /\ res.e # "rnf") => \A i \in 0..(Min(nxt, SrcLen) - 1) : \E j \in 1..Len(covs) : i \in covs[j]
OneRead == rd <= SrcLen + 1 /\ nxt <= rd
=============================================================================
