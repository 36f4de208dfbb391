------------------------------ MODULE TraceEval ------------------------------
(***************************************************************************)
(* Records of evaluations by the real code:                                *)
(*  [kind |-> "exact", text, hist, err, v]    an expression of numbers     *)
(*  [kind |-> "ref", text, err, k, m, x]      a point of the table of      *)
(*        reference values (nine significant digits m * 10^(x-8))          *)
(*  [kind |-> "rand", a, b, err, v]                                        *)
(*  [kind |-> "comp", whole, parts]           values of a tree and of its  *)
(*        root applied to the values of its operands                       *)
(***************************************************************************)
EXTENDS Eval, OpTable, TraceBase

RefRecs == ndJsonDeserialize(IOEnv.REFERENCE)

Codes == [c \in {0, 1, 2, 6, 7} |-> CASE c = 0 -> "" [] c = 1 -> "HISTORY_NOT_SET" [] c = 2 -> "IMPOSSIBLE_DERIV"
                                      [] c = 6 -> "DIVISION_BY_ZERO" [] c = 7 -> "COMPLEX_SOLUTION"]
CodeOf(c) == IF c \in DOMAIN Codes THEN Codes[c] ELSE "other"

\* the exact value, or the value to nine digits
Num9(k, m, x) == [k |-> k, m |-> m, x |-> x]
Exact(r) ==
  LET toks == Tokenize(Names(Arith), r.text)
      p == Parse(Arith, toks)
      w == Value(p.tree, r.hist)
  IN IF p.err # "" THEN "malformed test"
     ELSE IF w.e = "?" THEN ""
     ELSE IF w.e # CodeOf(r.err) THEN "should give " \o (IF w.e = "" THEN "a value" ELSE w.e)
     ELSE IF w.e # "" \/ w.v = U THEN ""
     ELSE IF w.v # r.v THEN "should be " \o ToString(w.v)
     ELSE ""
Close(a, b) == a.k = b.k /\ (a.k = 0 => IF a.m = 0 \/ b.m = 0 THEN a.m = b.m \/ MinOf(a.x, b.x) < -11
                                        ELSE /\ (a.x = b.x /\ Abs(a.m - b.m) <= 3)
                                                \/ (a.x = b.x + 1 /\ Abs(a.m - b.m \div 10) <= 3)
                                                \/ (b.x = a.x + 1 /\ Abs(b.m - a.m \div 10) <= 3))
RefOk(r) ==
  LET e == RefRecs[r.n] IN
  IF e.t # r.text THEN "wrong record"
  ELSE IF CodeOf(r.err) # "" THEN "should have a value"
  ELSE IF ~Close(Num9(e.k, e.m, e.x), Num9(r.k, r.m, r.x)) THEN "should be " \o ToJson(e)
  ELSE ""
RandOk(r) ==
  LET a == NTrunc(r.a)
      b == NTrunc(r.b)
  IN IF CodeOf(r.err) # "" THEN "should have a value"
     ELSE IF NCmp(NSub(b, a), One) < 0 THEN (IF r.v = <<-1, 1>> THEN "" ELSE "should be -1")
     ELSE IF ~IsInt(r.v) THEN "should be an integer"
     ELSE IF NCmp(r.v, a) < 0 \/ NCmp(r.v, b) >= 0 THEN "out of range" ELSE ""
CompOk(r) == IF r.whole = r.parts THEN "" ELSE "value of the root differs when operands are given by value: " \o ToJson(r.parts)
Judge == Report(LET r == Recs[pos] IN
                CASE r.kind = "exact" -> Exact(r) [] r.kind = "ref" -> RefOk(r) [] r.kind = "rand" -> RandOk(r) [] r.kind = "comp" -> CompOk(r))
=============================================================================
