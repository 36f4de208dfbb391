-------------------------------- MODULE Eval ---------------------------------
(***************************************************************************)
(* What the built-in operators compute (README.md, "help"), for operands   *)
(* that Num tracks.  hist is the history of results, newest last.          *)
(* A result is [e |-> "" / error, v |-> value]; e = "?" says that the model *)
(* cannot tell whether an error occurs because an operand is untracked.    *)
(***************************************************************************)
EXTENDS Grammar

Ok(v)  == [e |-> "", v |-> v]
Err(e) == [e |-> e, v |-> U]
Unsure == Err("?")

HistAt(hist, k) == IF k >= 0 /\ k < Len(hist) THEN Ok(hist[Len(hist) - k]) ELSE Err("HISTORY_NOT_SET")

\* greatest integer with a square up to n, between lo and hi
RECURSIVE RootIn(_, _, _)
RootIn(n, lo, hi) == IF lo = hi THEN lo
                     ELSE LET m == (lo + hi + 1) \div 2 IN IF m <= n \div m THEN RootIn(n, m, hi) ELSE RootIn(n, lo, m - 1)
Root(n) == RootIn(n, 0, 32768)
PowV(a, b) ==        \* a is not zero, or b > 0, or not a number is involved
  CASE b = NaN -> IF a = One THEN One ELSE IF a = U THEN U ELSE NaN
    [] b # U /\ IsZero(b) -> One
    [] a = One -> One
    [] a = U \/ b = U -> U
    [] a = NaN -> NaN
    [] ~Finite(b) -> LET c == NCmp(NAbs(a), One) IN
                     IF c = 0 THEN One ELSE IF (c > 0) = (b = Inf) THEN Inf ELSE Zero
    [] ~Finite(a) -> IF ~IsInt(b) THEN (IF IsNeg(b) THEN Zero ELSE Inf)
                     ELSE LET odd == b[1] % 2 = 1 IN
                          IF IsNeg(b) THEN SZero(IsNeg(a) /\ odd) ELSE IF IsNeg(a) /\ odd THEN NInf ELSE Inf
    [] IsZero(a) -> IF IsInt(b) /\ b[1] % 2 = 1 THEN a ELSE Zero
    [] IsInt(b) /\ Abs(b[1]) <= 60 ->
         IF b[1] > 0 THEN IPow(a, b[1])
         ELSE LET p == IPow(a, -b[1]) IN IF p = U THEN U ELSE NDiv(One, p)
    [] IsInt(b) /\ a = <<-1, 1>> -> IF b[1] % 2 = 0 THEN One ELSE <<-1, 1>>
    [] b = <<1, 2>> /\ ~IsNeg(a) ->      \* perfect squares
         LET n == Root(a[1])
             d == Root(a[2])
         IN IF n * n = a[1] /\ d * d = a[2] THEN <<n, d>> ELSE U
    [] OTHER -> U

SqrtV(a) == IF a = U \/ a = NaN \/ IsZero(a) \/ ~Finite(a) THEN a ELSE PowV(a, <<1, 2>>)

RECURSIVE FactI(_), FibFrom(_, _, _), ChooseV(_, _, _, _)
FactI(n) == IF n <= 1 THEN 1 ELSE n * FactI(n - 1)
FibFrom(n, a, b) == IF n = 0 THEN a ELSE FibFrom(n - 1, b, a + b)
FibI(n) == FibFrom(n, 0, 1)
\* product of (n-k+i)/i for i..k
ChooseV(n, k, i, acc) == IF i > k THEN NInt(acc)
                         ELSE IF ~FitsMul(acc, n - k + i) THEN U
                         ELSE ChooseV(n, k, i + 1, (acc * (n - k + i)) \div i)

FactV(a) == CASE a = U -> U
              [] a = NaN -> One
              [] ~Finite(a) -> Inf
              [] OTHER -> LET n == NTrunc(a) IN
                          IF IsZero(n) THEN One ELSE IF n[1] > 12 THEN U ELSE NInt(FactI(n[1]))
BinomV(a, b) ==
  IF a = U \/ b = U THEN (IF b # U /\ Finite(b) /\ IsZero(NTrunc(b)) THEN One ELSE U)
  ELSE IF ~Finite(a) \/ ~Finite(b) THEN U
  ELSE LET n == Abs(NTrunc(a)[1])
           k == Abs(NTrunc(b)[1])
       IN IF k = 0 THEN One ELSE IF k > n THEN Zero
          ELSE LET kk == IF 2 * k > n THEN n - k ELSE k IN
               IF kk > 1000 THEN U ELSE ChooseV(n, kk, 1, 1)
FModV(a, b) ==
  CASE a = U \/ b = U -> U
    [] a = NaN \/ b = NaN -> NaN
    [] ~Finite(a) \/ IsZero(b) -> NaN
    [] ~Finite(b) \/ IsZero(a) -> a
    [] OTHER ->
       LET d == MaxOf(a[2], b[2])
           fa == d \div a[2]
           fb == d \div b[2]
       IN IF ~FitsMul(a[1], fa) \/ ~FitsMul(b[1], fb) THEN U
          ELSE LET r == Abs(a[1] * fa) % Abs(b[1] * fb) IN
               IF r = 0 THEN SZero(IsNeg(a)) ELSE Mk(IF IsNeg(a) THEN -r ELSE r, d)
GcdV(a, b) ==
  CASE a = U \/ b = U -> U
    [] ~Finite(a) \/ ~Finite(b) -> NaN
    [] OTHER -> NInt(Gcd(Abs(NTrunc(a)[1]), Abs(NTrunc(b)[1])))
LcmV(a, b) ==
  LET g == GcdV(a, b) IN
  CASE g = U \/ g = NaN -> g
    [] IsZero(g) -> NaN
    [] OTHER -> NDiv(NAbs(NMul(NTrunc(a), NTrunc(b))), g)
FibV(a) ==
  CASE a = U -> U
    [] a = NaN -> NaN
    [] ~Finite(a) -> U
    [] OTHER -> LET n == NTrunc(a)[1] IN
                IF Abs(n) > 43 THEN U
                ELSE IF n < 0 /\ n % 2 = 0 THEN NInt(-FibI(-n)) ELSE NInt(FibI(Abs(n)))

RECURSIVE FoldV(_, _, _)
FoldV(f, a, i) ==        \* f of the first i arguments
  CASE f = "sum"  -> IF i = 0 THEN Zero ELSE NAdd(FoldV(f, a, i - 1), a[i])
    [] f = "prod" -> IF i = 0 THEN One ELSE NMul(FoldV(f, a, i - 1), a[i])
    [] f = "max"  -> IF i = 0 THEN NInf
                     ELSE LET m == FoldV(f, a, i - 1) IN
                          IF m = U \/ a[i] = U THEN U ELSE IF NLt(m, a[i]) THEN a[i] ELSE m
    [] f = "min"  -> IF i = 0 THEN Inf
                     ELSE LET m == FoldV(f, a, i - 1) IN
                          IF m = U \/ a[i] = U THEN U ELSE IF NLt(a[i], m) THEN a[i] ELSE m
VarV(a) ==
  LET n == Len(a)
      u == NDiv(FoldV("sum", a, n), NInt(n))
      sq == [i \in 1..n |-> LET d == NSub(a[i], u) IN NMul(d, d)]
  IN IF n = 0 THEN NaN ELSE NDiv(FoldV("sum", sq, n), NInt(n))

RECURSIVE Log2I(_)
Log2I(n) == IF n = 1 THEN 0 ELSE 1 + Log2I(n \div 2)
LdV(a) == CASE a = U -> U
            [] a = NaN \/ (IsNeg(a) /\ ~IsZero(a)) -> NaN
            [] IsZero(a) -> NInf
            [] ~Finite(a) -> a
            [] PowerOfTwo(a[1]) -> NInt(Log2I(a[1]) - Log2I(a[2]))
            [] OTHER -> U
\* the decimal logarithm of 1, 10, 100, ... is exact, others are not tracked
RECURSIVE LgI(_)
LgI(n) == IF n = 1 THEN 0 ELSE IF n % 10 # 0 THEN -100 ELSE 1 + LgI(n \div 10)
LgV(a) == IF a[2] = 1 /\ a[1] > 0 THEN (IF LgI(a[1]) >= 0 THEN NInt(LgI(a[1])) ELSE U)
          ELSE IF a = NaN THEN NaN ELSE U
\* exactly known points of the transcendental functions
At(a, x, y) == IF a = x THEN y ELSE IF a = NaN THEN NaN ELSE U
At0(a) == IF a = U THEN U ELSE IF a = NaN \/ IsZero(a) THEN a ELSE U

EvalOp(p, n, a, hist) ==
  LET x == a[1]
      y == a[2]
  IN
  CASE p = "pre" ->
    (CASE n \in {"$", "+"} -> Ok(x)
       [] n = "-" -> Ok(NNeg(x))
       [] n = "@" -> IF x = U THEN Unsure ELSE IF ~Finite(x) THEN Err("HISTORY_NOT_SET")
                     ELSE HistAt(hist, NTrunc(x)[1]))
  [] p = "post" ->
    (CASE n = "!" -> Ok(FactV(x))
       [] n = "%" -> Ok(NDiv(x, NInt(100)))
       [] n = "'" -> Err("IMPOSSIBLE_DERIV"))
  [] p = "inf" ->
    (CASE n = "+" -> Ok(NAdd(x, y))
       [] n = "-" -> Ok(NSub(x, y))
       [] n = "*" -> Ok(NMul(x, y))
       [] n = "/" -> IF y = U THEN Unsure ELSE IF IsZero(y) THEN Err("DIVISION_BY_ZERO") ELSE Ok(NDiv(x, y))
       [] n = "^" ->
            IF x = U THEN (IF y # U /\ y # NaN /\ IsInt(y) /\ ~IsNeg(y) /\ ~IsZero(y) THEN Ok(U) ELSE Unsure)
            ELSE IF y = U THEN (IF x # NaN /\ (IsZero(x) \/ IsNeg(x)) THEN Unsure ELSE Ok(PowV(x, y)))
            ELSE IF IsZero(x) /\ y # NaN /\ (IsZero(y) \/ IsNeg(y)) THEN Err("DIVISION_BY_ZERO")
            ELSE IF x # NaN /\ ~IsZero(x) /\ IsNeg(x) /\ (y = NaN \/ (Finite(y) /\ ~IsInt(y))) THEN Err("COMPLEX_SOLUTION")
            ELSE Ok(PowV(x, y))
       [] n = "C" -> Ok(BinomV(x, y))
       [] n = "mod" -> Ok(FModV(x, y)))
  [] p = "fn" ->
    (CASE n = "deriv" -> Err("IMPOSSIBLE_DERIV")
       [] n = "root" -> IF x = U THEN Unsure
                        ELSE IF x = NaN \/ (IsNeg(x) /\ ~IsZero(x)) THEN Err("COMPLEX_SOLUTION")
                        ELSE IF y = U THEN Ok(IF x = One THEN One ELSE U)
                        ELSE LET inv == IF IsZero(y) THEN (IF IsNeg(y) THEN NInf ELSE Inf) ELSE NDiv(One, y) IN
                             IF IsZero(x) /\ inv # U /\ inv # NaN /\ IsNeg(inv) /\ ~IsZero(inv) THEN Ok(U) ELSE Ok(PowV(x, inv))
       [] n = "sqrt" -> IF x = U THEN Unsure
                        ELSE IF x = NaN \/ (IsNeg(x) /\ ~IsZero(x)) THEN Err("COMPLEX_SOLUTION") ELSE Ok(SqrtV(x))
       [] n = "abs"   -> Ok(NAbs(x))
       [] n = "ceil"  -> Ok(NCeil(x))
       [] n = "floor" -> Ok(NFloor(x))
       [] n = "round" -> Ok(NRound(x))
       [] n = "trunc" -> Ok(NTrunc(x))
       [] n = "frac"  -> Ok(NSub(x, NFloor(x)))
       [] n = "sgn"   -> Ok(IF x = U THEN U ELSE IF x = NaN \/ IsZero(x) THEN Zero ELSE IF IsNeg(x) THEN <<-1, 1>> ELSE One)
       [] n \in {"sum", "prod", "max", "min"} -> Ok(FoldV(n, a, Len(a)))
       [] n = "avg" -> Ok(IF a = <<>> THEN Zero ELSE NDiv(FoldV("sum", a, Len(a)), NInt(Len(a))))
       [] n = "var" -> Ok(VarV(a))
       [] n = "gcd" -> Ok(GcdV(x, y))
       [] n = "lcm" -> Ok(LcmV(x, y))
       [] n = "rand" -> IF x # U /\ y # U /\ Finite(x) /\ Finite(y) /\ NCmp(NSub(NTrunc(y), NTrunc(x)), One) < 0
                        THEN Ok(<<-1, 1>>) ELSE Ok(U)
       [] n = "fib" -> Ok(FibV(x))
       [] n = "gamma" -> Ok(IF x = NaN THEN NaN ELSE U)
       [] n = "ld" -> Ok(LdV(x))
       [] n \in {"ln", "lg"} -> Ok(IF x # U /\ x # NaN /\ IsNeg(x) /\ ~IsZero(x) THEN NaN ELSE IF n = "lg" THEN LgV(x) ELSE At(x, One, Zero))
       [] n = "exp" -> Ok(IF x # U /\ Finite(x) /\ IsZero(x) THEN One ELSE IF x = NaN THEN NaN ELSE U)
       [] n \in {"sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh"} -> Ok(At0(x))
       [] n \in {"cos", "cosh"} -> Ok(IF x # U /\ Finite(x) /\ IsZero(x) THEN One ELSE IF x = NaN THEN NaN ELSE U)
       [] n \in {"acos", "acosh"} -> Ok(At(x, One, Zero))
       [] n = "log" -> Ok(IF x = NaN \/ y = NaN THEN NaN ELSE U)
       [] n = "clight" -> Ok(NInt(299792458))
       [] n \in {"pi", "e", "phi", "csound"} -> Ok(U)
       [] n = "ans" -> HistAt(hist, 0)
       [] OTHER -> Unsure)

(* ------------------------------- trees -------------------------------- *)
RECURSIVE NoVars(_)
NoVars(x) == CASE x.k = "num" -> TRUE
               [] x.k = "var" -> FALSE
               [] x.k = "op"  -> \A i \in 1..Len(x.c) : NoVars(x.c[i])

\* value of a tree without variables: [e, v, t], t the token of the failing node
RECURSIVE Value(_, _), ArgValues(_, _, _, _)
ArgValues(c, hist, i, acc) ==
  IF i > Len(c) THEN [e |-> "", a |-> acc, t |-> 0]
  ELSE LET r == Value(c[i], hist) IN
       IF r.e # "" THEN [e |-> r.e, a |-> acc, t |-> r.t]
       ELSE ArgValues(c, hist, i + 1, Append(acc, r.v))
Value(x, hist) ==
  IF x.k = "num" THEN [e |-> "", v |-> x.v, t |-> x.t]
  ELSE LET s == ArgValues(x.c, hist, 1, <<>>) IN
       IF s.e # "" THEN [e |-> s.e, v |-> U, t |-> s.t]
       ELSE LET r == EvalOp(x.p, x.n, s.a, hist) IN [e |-> r.e, v |-> r.v, t |-> x.t]

\* constant subtrees replaced by their values, left to right: [e, x, t]
RECURSIVE Reduce0(_, _), ReduceArgs(_, _, _, _)
ReduceArgs(c, hist, i, acc) ==
  IF i > Len(c) THEN [e |-> "", c |-> acc, t |-> 0]
  ELSE LET r == Reduce0(c[i], hist) IN
       IF r.e # "" THEN [e |-> r.e, c |-> acc, t |-> r.t]
       ELSE ReduceArgs(c, hist, i + 1, Append(acc, r.x))
Reduce0(x, hist) ==
  IF NoVars(x) THEN LET r == Value(x, hist) IN
                    IF r.e # "" THEN [e |-> r.e, x |-> x, t |-> r.t]
                    ELSE [e |-> "", x |-> NumNode(r.v, x.t), t |-> 0]
  ELSE IF x.k # "op" THEN [e |-> "", x |-> x, t |-> 0]
  ELSE LET s == ReduceArgs(x.c, hist, 1, <<>>) IN
       [e |-> s.e, x |-> IF s.e = "" THEN [x EXCEPT !.c = s.c] ELSE x, t |-> s.t]

RECURSIVE Subst(_, _), Retoken(_, _)
\* env: name -> tree; simultaneous
Subst(x, env) == CASE x.k = "num" -> x
                   [] x.k = "var" -> IF x.n \in DOMAIN env THEN env[x.n] ELSE x
                   [] x.k = "op"  -> [x EXCEPT !.c = [i \in 1..Len(x.c) |-> Subst(x.c[i], env)]]
Retoken(x, t) == IF x.k = "op" THEN [x EXCEPT !.t = t, !.c = [i \in 1..Len(x.c) |-> Retoken(x.c[i], t)]]
                 ELSE [x EXCEPT !.t = t]
RECURSIVE VarsOf(_)
VarsOf(x) == CASE x.k = "num" -> {}
               [] x.k = "var" -> {x.n}
               [] x.k = "op"  -> UNION {VarsOf(x.c[i]) : i \in 1..Len(x.c)}
RECURSIVE UsesFn(_, _)
UsesFn(x, f) == x.k = "op" /\ ((x.p = "fn" /\ x.n = f) \/ \E i \in 1..Len(x.c) : UsesFn(x.c[i], f))
RECURSIVE Tracked(_)   \* does the model know the text of the tree?
Tracked(x) == CASE x.k = "num" -> NumText(x.v) # UText
                [] x.k = "var" -> TRUE
                [] x.k = "op"  -> \A i \in 1..Len(x.c) : Tracked(x.c[i])
=============================================================================
