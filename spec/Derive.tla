------------------------------- MODULE Derive --------------------------------
(***************************************************************************)
(* The derivative of a tree with respect to a variable, by the rules of    *)
(* calculus: the oracle for deriv(f, x) and f'.  It is independent of the   *)
(* rule file of the calculator.                                            *)
(***************************************************************************)
EXTENDS Match

I2(n, a, b) == [k |-> "op", p |-> "inf", n |-> n, c |-> <<a, b>>]
N1(a) == [k |-> "op", p |-> "pre", n |-> "-", c |-> <<a>>]
F1(n, a) == [k |-> "op", p |-> "fn", n |-> n, c |-> <<a>>]
C0(n) == [k |-> "op", p |-> "fn", n |-> n, c |-> <<>>]
K(n) == NumT(NInt(n))

\* a few obvious simplifications keep the result small
Add(a, b) == IF a = K(0) THEN b ELSE IF b = K(0) THEN a ELSE I2("+", a, b)
Mul(a, b) == IF a = K(0) \/ b = K(0) THEN K(0) ELSE IF a = K(1) THEN b ELSE IF b = K(1) THEN a ELSE I2("*", a, b)
Neg(a) == IF a = K(0) THEN a ELSE N1(a)
Sub(a, b) == IF b = K(0) THEN a ELSE I2("-", a, b)
Div(a, b) == IF a = K(0) THEN a ELSE I2("/", a, b)
Pow(a, b) == I2("^", a, b)

\* outer derivative of the functions of one operand
Outer(n, a) ==
  CASE n = "exp"  -> F1("exp", a)
    [] n = "sqrt" -> Div(K(1), Mul(K(2), F1("sqrt", a)))
    [] n = "ln"   -> Div(K(1), a)
    [] n = "ld"   -> Div(K(1), Mul(a, F1("ln", K(2))))
    [] n = "lg"   -> Div(K(1), Mul(a, F1("ln", K(10))))
    [] n = "sin"  -> F1("cos", a)
    [] n = "cos"  -> Neg(F1("sin", a))
    [] n = "tan"  -> Div(K(1), Pow(F1("cos", a), K(2)))
    [] n = "asin" -> Div(K(1), F1("sqrt", Sub(K(1), Pow(a, K(2)))))
    [] n = "acos" -> Neg(Div(K(1), F1("sqrt", Sub(K(1), Pow(a, K(2))))))
    [] n = "atan" -> Div(K(1), Add(Pow(a, K(2)), K(1)))
    [] n = "sinh" -> F1("cosh", a)
    [] n = "cosh" -> F1("sinh", a)
    [] n = "tanh" -> Div(K(1), Pow(F1("cosh", a), K(2)))
    [] n = "asinh" -> Div(K(1), F1("sqrt", Add(Pow(a, K(2)), K(1))))
    [] n = "acosh" -> Div(K(1), F1("sqrt", Sub(Pow(a, K(2)), K(1))))
    [] n = "atanh" -> Div(K(1), Sub(K(1), Pow(a, K(2))))
    [] n = "abs"  -> F1("sgn", a)
    [] n \in {"sgn", "floor", "ceil", "round", "trunc"} -> K(0)     \* where they are differentiable
    [] n = "frac" -> K(1)
Functions == {"exp", "sqrt", "ln", "ld", "lg", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "abs",
          "sgn", "floor", "ceil", "round", "trunc", "frac"}

Free(x, v) == v \notin VarsOf(x)
RECURSIVE Sum(_), Prod(_)
Sum(s) == IF s = <<>> THEN K(0) ELSE Add(Head(s), Sum(Tail(s)))
Prod(s) == IF s = <<>> THEN K(1) ELSE Mul(Head(s), Prod(Tail(s)))

\* <<tree>>, or <<>> if this specification gives no derivative
RECURSIVE D(_, _)
DPow(a, b, da, db, v) ==
  IF Free(b, v) THEN Mul(Mul(b, Pow(a, Sub(b, K(1)))), da)
  ELSE IF Free(a, v) THEN Mul(Mul(F1("ln", a), Pow(a, b)), db)
  ELSE Mul(Pow(a, b), Add(Mul(db, F1("ln", a)), Div(Mul(b, da), a)))
DOp(x, v, d) ==
  LET a == x.c[1]
      b == IF Len(x.c) > 1 THEN x.c[2] ELSE K(0)
      n == x.n
  IN CASE x.p = "inf" /\ n = "+" -> << Add(d[1], d[2]) >>
       [] x.p = "inf" /\ n = "-" -> << Sub(d[1], d[2]) >>
       [] x.p = "inf" /\ n = "*" -> << Add(Mul(d[1], b), Mul(a, d[2])) >>
       [] x.p = "inf" /\ n = "/" -> IF Free(b, v) THEN << Div(d[1], b) >>
                                    ELSE << Div(Sub(Mul(d[1], b), Mul(a, d[2])), Pow(b, K(2))) >>
       [] x.p = "inf" /\ n = "^" -> << DPow(a, b, d[1], d[2], v) >>
       [] x.p = "pre" /\ n = "-" -> << Neg(d[1]) >>
       [] x.p = "pre" /\ n \in {"+", "$"} -> << d[1] >>
       [] x.p = "post" /\ n = "%" -> << Div(d[1], K(100)) >>
       [] x.p = "fn" /\ n = "sum" -> << Sum(d) >>
       [] x.p = "fn" /\ n = "avg" -> << Div(Sum(d), K(Len(x.c))) >>
       [] x.p = "fn" /\ n = "prod" -> << Sum(TLCEval([i \in 1..Len(x.c) |-> Prod(TLCEval([j \in 1..Len(x.c) |-> IF i = j THEN d[j] ELSE x.c[j]]))])) >>
       [] x.p = "fn" /\ n = "root" -> << DPow(a, Div(K(1), b), d[1], IF Free(b, v) THEN K(0) ELSE Neg(Div(d[2], Pow(b, K(2)))), v) >>
       [] x.p = "fn" /\ n = "log" /\ Free(b, v) -> << Div(d[1], Mul(a, F1("ln", b))) >>
       [] x.p = "fn" /\ n \in Functions -> << Mul(Outer(n, a), d[1]) >>
       [] OTHER -> <<>>
D(x, v) ==
  IF Free(x, v) THEN << K(0) >>
  ELSE IF x.k = "var" THEN << K(1) >>
  ELSE LET ds == TLCEval([i \in 1..Len(x.c) |-> D(x.c[i], v)]) IN
       IF \E i \in 1..Len(ds) : ds[i] = <<>> THEN <<>>
       ELSE DOp(x, v, TLCEval([i \in 1..Len(ds) |-> ds[i][1]]))

\* f is defined wherever its derivative is
Within(d, f) == IF d = <<>> THEN d ELSE << I2("+", d[1], I2("*", K(0), f)) >>
\* the tree without derivatives, the innermost taken first; <<>> if there is none
RECURSIVE Oracle(_)
Oracle(x) ==
  IF x.k # "op" THEN <<x>>
  ELSE LET cs == TLCEval([i \in 1..Len(x.c) |-> Oracle(x.c[i])])
           c == TLCEval([i \in 1..Len(cs) |-> IF cs[i] = <<>> THEN K(0) ELSE cs[i][1]])
       IN IF \E i \in 1..Len(cs) : cs[i] = <<>> THEN <<>>
          ELSE IF x.p = "fn" /\ x.n = "deriv" THEN (IF x.c[2].k = "var" THEN Within(D(c[1], x.c[2].n), c[1]) ELSE <<>>)
          ELSE IF x.p = "post" /\ x.n = "'"
          THEN LET V == VarsOf(c[1]) IN
               IF V = {} THEN Within(<< K(0) >>, c[1]) ELSE IF Cardinality(V) = 1 THEN Within(D(c[1], CHOOSE v \in V : TRUE), c[1]) ELSE <<>>
          ELSE << [x EXCEPT !.c = c] >>
=============================================================================
