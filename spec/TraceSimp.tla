----------------------------- MODULE TraceSimp -------------------------------
(* Records of simplification: [text, in, err, out, rules, pts]                *)
(*   rules: texts of the rule files loaded one after another                 *)
(*   pts:   values at sample points as [k, m, x]: m * 10^(x-8) if k = 0       *)
EXTENDS Simplify, TraceBase
Aspect == IOEnv.ASPECT
loaded == JsonDeserialize(IOEnv.LOADED)      \* name of a rule file -> what reading it gives
FUEL(r) == IF Len(r.text) > 500 THEN 600 ELSE 120

Accepted(f) == loaded[f].n = 7
\* the rules in force: those of the last accepted file
RECURSIVE InForce(_)
InForce(fs) == IF fs = <<>> THEN <<>>
               ELSE IF Accepted(fs[Len(fs)]) THEN loaded[fs[Len(fs)]].sets ELSE InForce(SubSeq(fs, 1, Len(fs) - 1))
RECURSIVE Total(_)
Total(sets) == IF sets = <<>> THEN 0 ELSE Len(Head(sets)) + Total(Tail(sets))
LoadResult(f) == IF Accepted(f) THEN Total(loaded[f].sets) ELSE -2

RECURSIVE Canon(_)
Canon(x) == CASE x.k = "num" -> x
              [] x.k = "var" -> x
              [] x.k = "op"  -> [x EXCEPT !.c = TLCEval([i \in 1..Len(x.c) |-> Canon(x.c[i])])]

Strategy(r) ==
  LET s == Simplified(InForce(r.rules), r.in, <<>>, FUEL(r)) IN
  IF s.u THEN "" 
  ELSE IF s.e # r.err THEN "error should be '" \o s.e \o "'"
  ELSE IF s.e = "" /\ U \notin NumsOf(s.x) /\ Bare(s.x) # r.out THEN "result should be " \o ToJson(Bare(s.x))
  ELSE ""
Settled(r) == LET s == Simplified(InForce(r.rules), r.in, <<>>, FUEL(r)) IN ~s.u

P10(k) == IF k > 9 THEN 1000000000 ELSE Pow10(k)
\* in units of 10^(e - 8), which are coarser than those of the value
Scaled(v, e) == IF v.m = 0 THEN 0 ELSE (IF v.m < 0 THEN -1 ELSE 1) * (Abs(v.m) \div P10(e - v.x))
Dist(a, b, e) == Abs(Scaled(a, e) - Scaled(b, e))

\* a, b: values before and after; near, bn: the same a little off, with every
\* intermediate result a little off as well: how well a and b are determined
PointV(p) ==
  IF p.a.e # 0 \/ p.b.e # 0 \/ p.near.e # 0 \/ p.a.k # 0 \/ p.near.k # 0 THEN ""
  ELSE LET e == MaxOf(p.a.max, p.b.max)
           wa == Dist(p.a, p.near, e)
           wb == Dist(p.b, p.bn, e) IN
       IF wa > 3000 THEN ""                               \* too close to a jump or a pole
       ELSE IF p.b.k # 0 THEN (IF p.b.max > 300 THEN "" ELSE "value is lost")     \* overflow on the way
       ELSE IF p.bn.e # 0 \/ p.bn.k # 0 \/ wb > 3000 THEN (IF Dist(p.a, p.b, e) <= 10000 THEN "" ELSE "the value changes")
       ELSE IF Dist(p.a, p.b, e) <= 4 + 10 * (wa + wb) THEN "" ELSE "the value changes"
RECURSIVE PointsV(_, _)
PointsV(ps, i) == IF i > Len(ps) THEN "" ELSE LET v == PointV(ps[i]) IN IF v = "" THEN PointsV(ps, i + 1) ELSE v \o " at point " \o ToString(i)

\* exact evaluation of both trees at small dyadic points
Exact(r) ==
  LET V == VarsOf(r.in) \cup VarsOf(r.out)
      A == {<<n, d>> : n \in {-3, 1, 2, 5, 7}, d \in {1}} \cup {<<-1, 2>>, <<3, 4>>}
      W == TLCEval(CHOOSE f \in [1..Cardinality(V) -> V] : \A i, j \in 1..Cardinality(V) : i # j => f[i] # f[j])
      E == {[v \in V |-> << NumT(IF Cardinality(V) > 0 /\ v = W[1] THEN a ELSE b) >>] : a \in A, b \in A}
  IN \A m \in E : LET a == PureValue(Inst(r.in, m)[1], <<>>)
                      b == PureValue(Inst(r.out, m)[1], <<>>)
                  IN a.e # "" \/ b.e # "" \/ a.v = U \/ b.v = U \/ a.v = NaN \/ b.v = NaN \/ ~Finite(a.v) \/ ~Finite(b.v) \/ TEq(NumT(a.v), NumT(b.v))

Values(r) ==
  IF r.err # "" THEN ""
  ELSE IF ~(VarsOf(r.out) \subseteq VarsOf(r.in)) THEN "the result has new variables"
  ELSE IF r.again # r.str THEN "the result differs from one time to another"
  ELSE IF Cardinality(VarsOf(r.in)) <= 2 /\ ~Exact(r) THEN "the exact value changes"
  ELSE PointsV(r.pts, 1)

Loads(r) == IF r.loads # [i \in 1..Len(r.rules) |-> LoadResult(r.rules[i])]
            THEN "loading should give " \o ToJson([i \in 1..Len(r.rules) |-> LoadResult(r.rules[i])]) ELSE ""

\* in: the input; oracle: its value by the rules of calculus, in the points a, near
Deriv(r) ==
  IF r.err # "" THEN (IF r.must = 1 THEN "there is a derivative" ELSE "")
  ELSE IF r.known = 0 THEN ""
  ELSE IF ~(VarsOf(r.out) \subseteq VarsOf(r.in)) THEN "the result has new variables"
  ELSE IF Cardinality(VarsOf(r.in)) <= 2 /\ ~Exact([in |-> r.oracle, out |-> r.out]) THEN "the derivative is wrong (exact)"
  ELSE PointsV(r.pts, 1)
ErrorV(r) == LET s == Simplified(InForce(r.rules), r.in, <<>>, FUEL(r)) IN
             IF s.u \/ s.e = r.err THEN "" ELSE "the error should be '" \o s.e \o "'"

Verdict(r) == CASE Aspect = "strategy" -> (IF Loads(r) # "" THEN Loads(r) ELSE Strategy(r))
                [] Aspect = "settled" -> IF Settled(r) THEN "SETTLED" ELSE ""
                [] Aspect = "value" -> Values(r)
                [] Aspect = "deriv" -> Deriv(r)
                [] Aspect = "error" -> ErrorV(r)
                [] Aspect = "same" -> IF r.with = r.without THEN "" ELSE "the result depends on definitions that are not used"
Judge == Report(Verdict(Recs[pos]))
=============================================================================
