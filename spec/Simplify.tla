------------------------------ MODULE Simplify -------------------------------
(***************************************************************************)
(* Simplification by seven rulesets: elimination, derivation, normal form,  *)
(* simplification, folding, prettifying, ordering.  Derivatives are taken   *)
(* between two passes of the others.  A result is                          *)
(*   [u |-> cannot be settled by the model, e |-> error, x |-> tree,        *)
(*    t |-> token of the node in which the error occurred]                  *)
(***************************************************************************)
EXTENDS RuleText

\* constant subtrees replaced by their values; the first error is reported, the rest is folded all the same
RECURSIVE Fold(_, _), FoldKids(_, _, _)
Fold(x, hist) ==
  LET r == IF NoVars(x) THEN PureValue(x, hist) ELSE [e |-> "", v |-> Zero, t |-> 0] IN
  IF NoVars(x) /\ r.e = "" THEN [e |-> "", x |-> NumNode(r.v, TokOf(x)), t |-> 0]
  ELSE IF r.e = "?" \/ x.k # "op" THEN [e |-> r.e, x |-> x, t |-> r.t]
  ELSE LET k == FoldKids(x, hist, 1) IN [e |-> IF r.e # "" THEN r.e ELSE k.e, x |-> k.x, t |-> IF r.e # "" THEN r.t ELSE k.t]
FoldKids(x, hist, i) ==
  IF i > Len(x.c) THEN [e |-> "", x |-> x, t |-> 0]
  ELSE LET r == TLCEval(Fold(x.c[i], hist))
           k == FoldKids([x EXCEPT !.c[i] = r.x], hist, i + 1)
       IN IF r.e = "?" THEN [e |-> "?", x |-> x, t |-> 0] ELSE [e |-> IF r.e # "" THEN r.e ELSE k.e, x |-> k.x, t |-> IF r.e # "" THEN r.t ELSE k.t]

\* negative numbers are written with the operator
RECURSIVE NegOut(_)
NegOut(x) ==
  CASE x.k = "num" -> IF x.v # U /\ x.v # NaN /\ ~IsZero(x.v) /\ IsNeg(x.v)
                      THEN OpNode("pre", "-", << NumNode(NNeg(x.v), TokOf(x)) >>, TokOf(x)) ELSE x
    [] x.k = "var" -> x
    [] x.k = "op"  -> [x EXCEPT !.c = TLCEval([i \in 1..Len(x.c) |-> NegOut(x.c[i])])]

\* one rule application at a time, folding after each
RECURSIVE Phase(_, _, _, _)
Phase(rules, x, hist, fuel) ==
  IF fuel = 0 \/ U \in NumsOf(x) THEN [u |-> TRUE, x |-> x]
  ELSE LET r == Step(rules, x, 1) IN
       IF r.u THEN [u |-> TRUE, x |-> x]
       ELSE IF ~r.f THEN [u |-> FALSE, x |-> NegOut(x)]
       ELSE LET f == Fold(r.x, hist) IN
            IF f.e = "?" THEN [u |-> TRUE, x |-> x] ELSE Phase(rules, f.x, hist, fuel - 1)

RECURSIVE Phases(_, _, _, _, _)
Phases(sets, order, x, hist, fuel) ==
  IF order = <<>> THEN [u |-> FALSE, x |-> x]
  ELSE LET r == Phase(sets[Head(order)], x, hist, fuel) IN
       IF r.u THEN r ELSE Phases(sets, Tail(order), r.x, hist, fuel)
Plain == <<1, 3, 4, 5, 6, 7>>

IsDeriv(x) == x.k = "op" /\ x.p = "fn" /\ x.n = "deriv"
Is(T, x) == CASE T = "tick" -> x.k = "op" /\ x.p = "post" /\ x.n = "'"
              [] T = "deriv" -> IsDeriv(x)
              [] T = "bad deriv" -> IsDeriv(x) /\ x.c[2].k # "var"
\* the first subtree in preorder that is a T, as a position; <<0>> if none
RECURSIVE FirstPos(_, _), FirstPosKids(_, _, _)
FirstPos(x, T) == IF Is(T, x) THEN <<>> ELSE IF x.k = "op" THEN FirstPosKids(x, T, 1) ELSE <<0>>
FirstPosKids(x, T, i) == IF i > Len(x.c) THEN <<0>>
                            ELSE LET q == FirstPos(x.c[i], T) IN IF q # <<0>> THEN <<i>> \o q ELSE FirstPosKids(x, T, i + 1)
RECURSIVE AtPos(_, _), Replace(_, _, _)
AtPos(t, q) == IF q = <<>> THEN t ELSE AtPos(t.c[Head(q)], Tail(q))
Replace(t, q, y) == IF q = <<>> THEN y ELSE [t EXCEPT !.c[Head(q)] = Replace(t.c[Head(q)], Tail(q), y)]
\* f' is the derivative with respect to the variable of f
RECURSIVE Ticks(_)
Ticks(x) ==
  LET q == FirstPos(x, "tick") IN
  IF q = <<0>> THEN [e |-> "", x |-> x, t |-> 0]
  ELSE LET y == AtPos(x, q)
           V == VarsOf(y)
       IN IF Cardinality(V) > 1 THEN [e |-> "MALFORMED_DERIV_A", x |-> x, t |-> TokOf(y)]
          ELSE Ticks(Replace(x, q, OpNode("fn", "deriv", <<y.c[1], VarNode(IF V = {} THEN "z" ELSE CHOOSE v \in V : TRUE, TokOf(y))>>, TokOf(y))))

Sure(e, x, t) == [u |-> FALSE, e |-> e, x |-> x, t |-> t]
Lost(x) == [u |-> TRUE, e |-> "", x |-> x, t |-> 0]

Derive(sets, x, hist, fuel) ==
  LET t == Ticks(x) IN
  IF t.e # "" THEN Sure(t.e, x, t.t)
  ELSE IF FirstPos(t.x, "bad deriv") # <<0>> THEN Sure("MALFORMED_DERIV_B", t.x, TokOf(AtPos(t.x, FirstPos(t.x, "bad deriv"))))
  ELSE LET r == Phase(sets[2], t.x, hist, fuel) IN
       IF r.u THEN Lost(r.x)
       ELSE IF FirstPos(r.x, "deriv") # <<0>> THEN Sure("IMPOSSIBLE_DERIV", r.x, TokOf(AtPos(r.x, FirstPos(r.x, "deriv")))) ELSE Sure("", r.x, 0)

Last(sets, x, hist) == LET f == Fold(x, hist) IN IF f.e = "?" THEN Lost(x) ELSE IF f.e # "" THEN Sure(f.e, f.x, f.t) ELSE Sure("", NegOut(f.x), 0)
\* sets: <<>> if no rules are loaded
Simplified(sets, x, hist, fuel) ==
  LET f == Fold(x, hist) IN
  IF f.e = "?" \/ U \in NumsOf(x) THEN Lost(x)
  ELSE IF sets = <<>> THEN Sure(f.e, f.x, f.t)
  ELSE LET a == Phases(sets, Plain, f.x, hist, fuel) IN
       IF a.u THEN Lost(a.x)
       ELSE LET d == Derive(sets, a.x, hist, fuel) IN
            IF d.u \/ d.e # "" THEN d
            ELSE LET b == Phases(sets, Plain, d.x, hist, fuel) IN
                 IF b.u THEN Lost(b.x) ELSE Last(sets, b.x, hist)
=============================================================================
