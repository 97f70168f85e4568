-------------------------------- MODULE Calc --------------------------------
(***************************************************************************)
(* Arithmetic expressions, as the example evaluates them.  Meaning is      *)
(* given twice: conventionally (well-formedness by what may follow what,   *)
(* value by the rightmost operator of lowest precedence outside brackets)  *)
(* and by the rules of the grammar with what each reducer computes.        *)
(* A value is a program in postfix order: <<"num", token>> pushes, "neg"   *)
(* and "sqrt" replace the top, the others combine the two on top.          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Num == 0  Add == 1  Sub == 2  Mul == 3  Div == 4  Open == 5  Close == 6  Root == 7
Sum == 1000  Product == 1001  Block == 1002

CalcRules == <<
  <<Sum, <<Sum, Add, Product>>>>, <<Sum, <<Sum, Sub, Product>>>>, <<Sum, <<Product>>>>,
  <<Product, <<Product, Mul, Block>>>>, <<Product, <<Product, Div, Block>>>>, <<Product, <<Block>>>>,
  <<Block, <<Num>>>>, <<Block, <<Add, Num>>>>, <<Block, <<Sub, Num>>>>,
  <<Block, <<Open, Sum, Close>>>>, <<Block, <<Root, Block>>>> >>

(* what the reducer of a rule makes of its children; x[i] is the program of child i *)
Op == <<<<"add">>, <<"sub">>, <<>>, <<"mul">>, <<"div">>>>
Reduced(r, x) ==
  CASE r \in {1, 2, 4, 5} -> x[1] \o x[3] \o <<Op[r]>>
    [] r \in {3, 6, 7} -> x[1]
    [] r = 8 -> x[2]
    [] r = 9 -> x[2] \o <<<<"neg">>>>
    [] r = 10 -> x[2]
    [] r = 11 -> x[2] \o <<<<"sqrt">>>>

(* -- conventional reading ------------------------------------------------ *)
(* what is expected next: an operand, the number after a sign, an operator; *)
(* "x" nothing any more.  d: open brackets                                  *)
RECURSIVE Follow(_, _, _)
Follow(w, e, d) ==
  IF w = <<>> THEN <<e, d>>
  ELSE LET t == Head(w)
           to == CASE e = "operand" /\ t = Num -> <<"operator", d>>
                   [] e = "operand" /\ t \in {Add, Sub} -> <<"number", d>>
                   [] e = "operand" /\ t = Open -> <<"operand", d + 1>>
                   [] e = "operand" /\ t = Root -> <<"operand", d>>
                   [] e = "number" /\ t = Num -> <<"operator", d>>
                   [] e = "operator" /\ t \in {Add, Sub, Mul, Div} -> <<"operand", d>>
                   [] e = "operator" /\ t = Close /\ d > 0 -> <<"operator", d - 1>>
                   [] OTHER -> <<"x", 0>>
       IN IF to[1] = "x" THEN to ELSE Follow(Tail(w), to[1], to[2])
Viable(w) == Follow(w, "operand", 0)[1] # "x"
WellFormed(w) == Follow(w, "operand", 0) = <<"operator", 0>>

RECURSIVE DepthAt(_, _)
DepthAt(w, i) == IF i = 1 THEN 0
                 ELSE DepthAt(w, i - 1) + (IF w[i - 1] = Open THEN 1 ELSE IF w[i - 1] = Close THEN -1 ELSE 0)
(* a sign or operator at i is binary iff an operand ends just before it *)
Binary(w, i) == i > 1 /\ w[i - 1] \in {Num, Close}
Last(S) == CHOOSE x \in S : \A y \in S : y <= x

RECURSIVE Value(_, _, _)
(* program of the well-formed tokens a..b of w *)
Value(w, a, b) ==
  LET v == SubSeq(w, a, b)
      at(S) == {i \in 1..Len(v) : v[i] \in S /\ DepthAt(v, i) = 0 /\ Binary(v, i)}
      low == at({Add, Sub})
      high == at({Mul, Div})
      split(i) == Value(w, a, a + i - 2) \o Value(w, a + i, b) \o <<Op[IF v[i] = Add THEN 1 ELSE IF v[i] = Sub THEN 2 ELSE IF v[i] = Mul THEN 4 ELSE 5]>>
  IN IF low # {} THEN split(Last(low))
     ELSE IF high # {} THEN split(Last(high))
     ELSE IF v[1] = Num THEN <<<<"num", a>>>>
     ELSE IF v[1] = Add THEN <<<<"num", a + 1>>>>
     ELSE IF v[1] = Sub THEN <<<<"num", a + 1>>, <<"neg">>>>
     ELSE IF v[1] = Root THEN Value(w, a + 1, b) \o <<<<"sqrt">>>>
     ELSE Value(w, a + 1, b - 1)
Meaning(w) == Value(w, 1, Len(w))
=============================================================================
