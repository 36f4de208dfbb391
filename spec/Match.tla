-------------------------------- MODULE Match --------------------------------
(***************************************************************************)
(* Patterns, matchings and rewriting.                                      *)
(*                                                                         *)
(* A pattern is a tree; variables whose name begins with "[" stand for     *)
(* lists of neighbouring operands, the others for a single tree.  A        *)
(* matching m maps the variables of the pattern to sequences of trees.     *)
(*   Declarative: m is a matching of tree t iff Inst(pattern, m) = <<t>>,  *)
(*                non-list variables are mapped to one tree, and all       *)
(*                constraints hold.                                        *)
(*   Constructive: Matchings enumerates them in the order of preference:   *)
(*                shorter lists first, earlier lists first.  MCMatch       *)
(*                checks that both agree.                                  *)
(***************************************************************************)
EXTENDS Eval, OpTable

IsList(n) == Ch(n, 1) = "["

RECURSIVE NumsOf(_)
NumsOf(x) == CASE x.k = "num" -> {x.v} [] x.k = "var" -> {} [] x.k = "op" -> UNION {NumsOf(x.c[i]) : i \in 1..Len(x.c)}

\* equality of trees: numbers by value (zeros are equal, nan is unequal to itself)
RECURSIVE TEq(_, _)
TEq(a, b) ==
  /\ a.k = b.k
  /\ CASE a.k = "num" -> a.v # NaN /\ b.v # NaN /\ (a.v = b.v \/ (IsZero(a.v) /\ IsZero(b.v)))
       [] a.k = "var" -> a.n = b.n
       [] a.k = "op"  -> /\ a.n = b.n /\ a.p = b.p /\ Len(a.c) = Len(b.c)
                         /\ \A i \in 1..Len(a.c) : TEq(a.c[i], b.c[i])
LEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : TEq(a[i], b[i])

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* variables replaced by what they stand for
RECURSIVE Inst(_, _), InstKids(_, _, _)
InstKids(c, m, i) == IF i > Len(c) THEN <<>> ELSE Inst(c[i], m) \o InstKids(c, m, i + 1)
Inst(x, m) == CASE x.k = "num" -> <<x>>
                [] x.k = "var" -> IF x.n \in DOMAIN m THEN m[x.n] ELSE <<x>>
                [] x.k = "op"  -> << [k |-> "op", p |-> x.p, n |-> x.n, c |-> InstKids(x.c, m, 1)] >>

(* ----------------------------- constraints ---------------------------- *)
TypeVal(x) == CASE x.k = "num" -> NInt(2) [] x.k = "var" -> NInt(3) [] x.k = "op" -> NInt(4)
Bool(b) == IF b THEN One ELSE Zero
NumT(v) == [k |-> "num", v |-> v]

\* f(...) replaced by numbers, innermost first
RECURSIVE ReduceFn(_, _)
ReduceFn(x, f) ==
  IF x.k # "op" THEN x
  ELSE LET c == TLCEval([i \in 1..Len(x.c) |-> ReduceFn(x.c[i], f)]) IN
       IF x.p = "fn" /\ x.n = f
       THEN NumT(CASE f = "type"  -> TypeVal(c[1])
                   [] f = "equal" -> Bool(TEq(c[1], c[2]))
                   [] f = "count" -> NInt(Len(c)))
       ELSE [x EXCEPT !.c = c]

Cmp(n, a, b) ==      \* a, b known
  CASE n = "==" -> NEq(a, b)
    [] n = "!=" -> ~NEq(a, b)
    [] n = "<"  -> NLt(a, b)
    [] n = ">"  -> NLt(b, a)
    [] n = "<=" -> NLt(a, b) \/ NEq(a, b)
    [] n = ">=" -> NLt(b, a) \/ NEq(a, b)
Truthy(a) == a = NaN \/ ~Finite(a) \/ ~IsZero(a)

EvalPropH(x, a, hist) ==
  CASE x.p = "inf" /\ x.n \in {"==", "!=", "<", ">", "<=", ">="} ->
         IF a[1] = U \/ a[2] = U THEN Unsure ELSE Ok(Bool(Cmp(x.n, a[1], a[2])))
    [] x.p = "inf" /\ x.n = "||" ->
         IF a[1] = U \/ a[2] = U THEN Unsure ELSE Ok(Bool(Truthy(a[1]) \/ Truthy(a[2])))
    [] x.p = "pre" /\ x.n = "!" -> IF a[1] = U THEN Unsure ELSE Ok(Bool(~Truthy(a[1])))
    [] x.p = "fn" /\ x.n = "CONST" -> Ok(NInt(2))
    [] x.p = "fn" /\ x.n = "VAR"   -> Ok(NInt(3))
    [] x.p = "fn" /\ x.n = "OP"    -> Ok(NInt(4))
    [] x.p = "fn" /\ x.n = "TRUE"  -> Ok(One)
    [] x.p = "fn" /\ x.n = "FALSE" -> Ok(Zero)
    [] OTHER -> EvalOp(x.p, x.n, a, hist)

\* trees of rules have no tokens
TokOf(x) == IF "t" \in DOMAIN x THEN x.t ELSE 0

\* [e, v, t]: t is the token of the node that fails
RECURSIVE PureValue(_, _), PureArgs(_, _, _, _)
PureArgs(c, hist, i, acc) ==
  IF i > Len(c) THEN [e |-> "", a |-> acc, t |-> 0]
  ELSE LET r == PureValue(c[i], hist) IN IF r.e # "" THEN [e |-> r.e, a |-> acc, t |-> r.t] ELSE PureArgs(c, hist, i + 1, Append(acc, r.v))
PureValue(x, hist) ==
  CASE x.k = "num" -> [e |-> "", v |-> x.v, t |-> 0]
    [] x.k = "var" -> [e |-> "VARIABLE", v |-> U, t |-> TokOf(x)]
    [] x.k = "op"  -> LET s == PureArgs(x.c, hist, 1, <<>>) IN
                      IF s.e # "" THEN [e |-> s.e, v |-> U, t |-> s.t]
                      ELSE LET r == EvalPropH(x, s.a, hist) IN [e |-> r.e, v |-> r.v, t |-> TokOf(x)]
PropValue(x) == PureValue(x, <<>>)

\* "T", "F", or "?" when numbers are involved that the model does not track
Holds(con, m) ==
  LET s == Inst(con, m)
      r == PropValue(ReduceFn(ReduceFn(ReduceFn(s[1], "type"), "equal"), "count"))
      usesEq == UsesFn(con, "equal") /\ U \in NumsOf(s[1])
  IN IF s = <<>> \/ Len(s) > 1 THEN "?"
     ELSE IF r.e = "?" \/ usesEq THEN "?"
     ELSE IF r.e # "" THEN "F"
     ELSE IF r.v = U THEN "?"
     ELSE IF Truthy(r.v) THEN "T" ELSE "F"

\* a rule or pattern: [pat, cons, (after)]
RECURSIVE VarSeqK(_, _, _)
VarSeq1(x, acc) == IF x.k = "var" THEN (IF \E i \in 1..Len(acc) : acc[i] = x.n THEN acc ELSE Append(acc, x.n))
                   ELSE IF x.k = "op" THEN VarSeqK(x.c, 1, acc) ELSE acc
VarSeqK(c, i, acc) == IF i > Len(c) THEN acc
                      ELSE LET x == c[i]
                               a == IF x.k = "var" THEN (IF \E j \in 1..Len(acc) : acc[j] = x.n THEN acc ELSE Append(acc, x.n))
                                    ELSE IF x.k = "op" THEN VarSeqK(x.c, 1, acc) ELSE acc
                           IN VarSeqK(c, i + 1, a)
VarSeq(x) == VarSeq1(x, <<>>)

(* --------------------------- declarative view ------------------------- *)
IsMatching(P, t, m) ==
  /\ DOMAIN m = VarsOf(P.pat)
  /\ \A n \in DOMAIN m : IsList(n) \/ Len(m[n]) = 1
  /\ LEq(Inst(P.pat, m), <<t>>)
  /\ \A i \in 1..Len(P.cons) : Holds(P.cons[i], m) = "T"

\* order of preference: lengths of the lists among the operands, then within the operands
RECURSIVE Key(_, _), KeyKids(_, _, _)
KeyKids(c, m, i) == IF i > Len(c) THEN <<>> ELSE Key(c[i], m) \o KeyKids(c, m, i + 1)
Key(x, m) == IF x.k # "op" THEN <<>>
             ELSE [i \in 1..Len(x.c) |-> IF x.c[i].k = "var" THEN Len(m[x.c[i].n]) ELSE 1] \o KeyKids(x.c, m, 1)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE a[1] < b[1] \/ (a[1] = b[1] /\ LexLess(Tail(a), Tail(b)))

(* -------------------------- constructive view ------------------------- *)
\* matchings carry "?" in their domain when a constraint could not be judged
Unsettled == "?"
Put(m, n, v) == TLCEval([x \in DOMAIN m \cup {n} |-> IF x = n THEN v ELSE m[x]])
Mapped(m) == DOMAIN m \ {Unsettled}

\* binding n: the constraints all of whose variables are now bound
Bind(P, m, n, list) ==
  LET m2 == Put(m, n, list)
      S == {i \in 1..Len(P.cons) : LET V == VarsOf(P.cons[i]) IN V \subseteq DOMAIN m2 /\ n \in V}
      H == {Holds(P.cons[i], m2) : i \in S}
  IN IF "F" \in H THEN <<>> ELSE IF "?" \in H THEN << Put(m2, Unsettled, <<>>) >> ELSE << m2 >>

RECURSIVE Extend(_, _, _, _), ExtendAll(_, _, _, _, _), Kids(_, _, _, _, _, _)
Extend(P, m, pat, list) ==
  CASE pat.k = "var" -> IF pat.n \in DOMAIN m THEN (IF LEq(m[pat.n], list) THEN <<m>> ELSE <<>>)
                        ELSE Bind(P, m, pat.n, list)
    [] pat.k = "num" -> IF LEq(<<pat>>, list) THEN <<m>> ELSE <<>>
    [] pat.k = "op"  -> IF Len(list) = 1 /\ list[1].k = "op" /\ list[1].n = pat.n /\ list[1].p = pat.p
                        THEN Kids(P, pat.c, list[1].c, 1, 0, <<m>>) ELSE <<>>
ExtendAll(P, ms, pat, list, i) ==
  IF i > Len(ms) THEN <<>> ELSE Extend(P, ms[i], pat, list) \o ExtendAll(P, ms, pat, list, i + 1)
\* patterns i.. against the operands after the first pos, for each of ms
Kids(P, pats, kids, i, pos, ms) ==
  IF i > Len(pats) THEN (IF pos = Len(kids) THEN ms ELSE <<>>)
  ELSE LET x == pats[i]
           list == x.k = "var" /\ IsList(x.n)
           rest == Len(kids) - pos
           lens == IF ~list THEN (IF rest > 0 THEN <<1>> ELSE <<>>)
                   ELSE IF x.n \in DOMAIN ms[1] THEN (IF Len(ms[1][x.n]) <= rest /\ \A k \in 1..Len(ms) : x.n \in DOMAIN ms[k] /\ Len(ms[k][x.n]) = Len(ms[1][x.n])
                                                      THEN <<Len(ms[1][x.n])>> ELSE [l \in 1..(rest + 1) |-> l - 1])
                   ELSE IF i = Len(pats) THEN <<rest>>
                   ELSE [l \in 1..(rest + 1) |-> l - 1]
           Try[l \in 0..Len(lens)] ==
             IF l = 0 THEN <<>>
             ELSE LET ms2 == ExtendAll(P, ms, x, SubSeq(kids, pos + 1, pos + lens[l]), 1) IN
                  Try[l - 1] \o (IF ms2 = <<>> THEN <<>> ELSE Kids(P, pats, kids, i + 1, pos + lens[l], ms2))
       IN Try[Len(lens)]

NoMap == [x \in {} |-> <<>>]
\* constraints without variables of a pattern do not wait for a variable
Closed(P) == {Holds(P.cons[i], NoMap) : i \in {j \in 1..Len(P.cons) : VarsOf(P.cons[j]) = {}}}
Matchings(P, t) ==
  IF Cardinality(Closed(P)) > 0 /\ "F" \in Closed(P) THEN <<>>
  ELSE LET ms == Extend(P, NoMap, P.pat, <<t>>) IN
       IF "?" \in Closed(P) THEN [i \in 1..Len(ms) |-> Put(ms[i], Unsettled, <<>>)] ELSE ms

(* ------------------------------ rewriting ----------------------------- *)
\* what a rule puts in the place of a subtree: its own nodes belong to the
\* token of the subtree, those it moves keep theirs
RECURSIVE Build(_, _, _), BuildKids(_, _, _, _)
BuildKids(c, m, t, i) == IF i > Len(c) THEN <<>> ELSE Build(c[i], m, t) \o BuildKids(c, m, t, i + 1)
Build(x, m, t) == CASE x.k = "num" -> << NumNode(x.v, t) >>
                    [] x.k = "var" -> IF x.n \in DOMAIN m THEN m[x.n] ELSE << VarNode(x.n, t) >>
                    [] x.k = "op"  -> << OpNode(x.p, x.n, BuildKids(x.c, m, t, 1), t) >>

\* f: found, u: cannot be settled, x: the tree with the subtree rewritten, m, at
NotFound(x) == [f |-> FALSE, u |-> FALSE, x |-> x, m |-> NoMap, at |-> x]
RECURSIVE Rewrite(_, _), RewriteKids(_, _, _)
Rewrite(R, x) ==
  LET ms == IF R.pat.k = "op" /\ (x.k # "op" \/ x.n # R.pat.n \/ x.p # R.pat.p) THEN <<>> ELSE Matchings(R, x) IN
  IF ms # <<>> THEN
    IF Unsettled \in DOMAIN ms[1] THEN [NotFound(x) EXCEPT !.u = TRUE]
    ELSE LET y == Build(R.after, ms[1], TokOf(x)) IN
         IF Len(y) # 1 THEN [NotFound(x) EXCEPT !.u = TRUE]
         ELSE [f |-> TRUE, u |-> FALSE, x |-> y[1], m |-> ms[1], at |-> x]
  ELSE IF x.k = "op" THEN RewriteKids(R, x, 1) ELSE NotFound(x)
RewriteKids(R, x, i) ==
  IF i > Len(x.c) THEN NotFound(x)
  ELSE LET r == Rewrite(R, x.c[i]) IN
       IF r.u THEN [r EXCEPT !.x = x]
       ELSE IF r.f THEN [r EXCEPT !.x = [x EXCEPT !.c[i] = r.x]]
       ELSE RewriteKids(R, x, i + 1)

\* the first rule that applies, once: n is 0 if none did
RECURSIVE Step(_, _, _)
Step(rules, x, i) ==
  IF i > Len(rules) THEN NotFound(x)
  ELSE LET r == Rewrite(rules[i], x) IN IF r.f \/ r.u THEN r ELSE Step(rules, x, i + 1)

\* repeatedly, at most cap times (0: without limit)
RECURSIVE Apply(_, _, _, _)
Apply(rules, x, cap, n) ==
  LET r == Step(rules, x, 1) IN
  IF r.u THEN [u |-> TRUE, n |-> n, x |-> x]
  ELSE IF ~r.f THEN [u |-> FALSE, n |-> n, x |-> x]
  ELSE IF n + 1 = cap THEN [u |-> FALSE, n |-> cap, x |-> r.x]
  ELSE Apply(rules, r.x, cap, n + 1)
=============================================================================
