---------------------------- MODULE TraceRewrite -----------------------------
(* Records of matching, rewriting and of reading rule files:                  *)
(*   match: [ptext, pat, tree, vars, all, got, first, found, at, fm]          *)
(*   rules: [rules, cap, in, n, tree]                                         *)
(*   file:  [text, max, n, sets, errs, badtext]                               *)
EXTENDS RuleText, TraceBase

AsSeq(m, vars) == [i \in 1..Len(vars) |-> m[vars[i]]]
\* trees by value: one representative for the zeros, every nan alike
RECURSIVE Canon(_)
Canon(x) == CASE x.k = "num" -> [k |-> "num", v |-> IF IsZero(x.v) THEN Zero ELSE x.v]
              [] x.k = "var" -> [k |-> "var", n |-> x.n]
              [] x.k = "op"  -> [k |-> "op", p |-> x.p, n |-> x.n, c |-> [i \in 1..Len(x.c) |-> Canon(x.c[i])]]
CanonM(ls) == [i \in 1..Len(ls) |-> [j \in 1..Len(ls[i]) |-> Canon(ls[i][j])]]
Big(x) == U \in NumsOf(x)

MatchV(r) ==
  LET P == ParsePattern(r.ptext)
      ms == Matchings(P, r.tree)
      vars == VarSeq(P.pat)
      w == Rewrite([P EXCEPT !.after = NumT(Zero)] , r.tree)
      unsure == Big(r.tree) \/ Big(P.pat) \/ \E i \in 1..Len(ms) : Unsettled \in DOMAIN ms[i]
  IN IF ~P.ok THEN (IF r.bad = "pattern" THEN "" ELSE "the pattern should be refused")
     ELSE IF r.bad = "pattern" THEN "the pattern should be accepted"
     ELSE IF Canon(P.pat) # Canon(r.pat) THEN ""          \* decided elsewhere
     ELSE IF unsure \/ w.u THEN ""
     ELSE IF r.vars # vars THEN "variables should be " \o ToJson(vars)
     ELSE IF [i \in 1..Len(r.all) |-> CanonM(r.all[i])] # [i \in 1..Len(ms) |-> CanonM(AsSeq(ms[i], vars))]
          THEN "matchings should be " \o ToJson([i \in 1..Len(ms) |-> AsSeq(ms[i], vars)])
     ELSE IF r.got # (IF ms = <<>> THEN 0 ELSE 1) \/ (ms # <<>> /\ r.first # r.all[1]) THEN "the first matching should be chosen"
     ELSE IF r.found # (IF w.f THEN 1 ELSE 0) THEN "a match within the tree should " \o (IF w.f THEN "" ELSE "not ") \o "be found"
     ELSE IF w.f /\ Canon(r.at) # Canon(w.at) THEN "the match should be found at " \o ToJson(w.at)
     ELSE IF w.f /\ CanonM(r.fm) # CanonM(AsSeq(w.m, vars)) THEN "the match found should be " \o ToJson(AsSeq(w.m, vars))
     ELSE ""

RulesV(r) ==
  LET rs == TLCEval([i \in 1..Len(r.rules) |-> ParseRule(r.rules[i])])
      a == Apply(rs, r.in, r.cap, 0)
  IN IF \E i \in 1..Len(rs) : ~rs[i].ok THEN (IF r.bad = "rule" THEN "" ELSE "a rule should be refused")
     ELSE IF r.bad = "rule" THEN "the rules should be accepted"
     ELSE IF a.u \/ Big(r.in) THEN ""
     ELSE IF a.n # r.n THEN ToString(a.n) \o " steps should be performed"
     ELSE IF Canon(a.x) # Canon(r.tree) THEN "the tree should become " \o ToJson(a.x)
     ELSE ""

RECURSIVE Same(_, _)
Same(a, b) == /\ a.k = b.k
              /\ CASE a.k = "num" -> a.v = U \/ b.v = U \/ a.v = b.v
                   [] a.k = "var" -> a.n = b.n
                   [] a.k = "op" -> a.p = b.p /\ a.n = b.n /\ Len(a.c) = Len(b.c)
                                    /\ \A i \in 1..Len(a.c) : Same(a.c[i], b.c[i])
\* constraints may be kept in any order
RECURSIVE SameBag(_, _)
SameBag(a, b) == IF a = <<>> THEN b = <<>>
                 ELSE \E i \in 1..Len(b) : Same(a[1], b[i]) /\ SameBag(Tail(a), [j \in 1..(Len(b) - 1) |-> IF j < i THEN b[j] ELSE b[j + 1]])
SameRule(a, b) == Same(a.pat, b.pat) /\ Same(a.after, b.after) /\ Len(a.cons) = Len(b.cons)
                  /\ SameBag(a.cons, b.cons)
SameRules(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameRule(a[i], b[i])
EndsWith(s, e) == Len(e) <= Len(s) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e

FileV(r) ==
  LET f == ReadRules(r.text, r.max) IN
  IF f.n = -1 THEN
    IF r.n # -1 THEN "line " \o ToString(f.bad) \o " should be refused"
    ELSE IF EndsWith(r.errs, "Error occurred in line " \o ToString(f.bad) \o ": " \o f.line \o ".\n") THEN ""
    ELSE "the error should name line " \o ToString(f.bad)
  ELSE IF r.n # f.n THEN ToString(f.n) \o " rulesets should be read"
  ELSE IF \A i \in 1..f.n : SameRules(f.sets[i], r.sets[i]) THEN (IF (f.ign = 0) = (r.errs = "") THEN "" ELSE "ignored lines should be reported")
  ELSE "the rules should be " \o ToJson(f.sets)

Verdict(r) == CASE r.kind = "match" -> MatchV(r) [] r.kind = "rules" -> RulesV(r) [] r.kind = "file" -> FileV(r)
Judge == Report(Verdict(Recs[pos]))
=============================================================================
