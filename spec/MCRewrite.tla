------------------------------ MODULE MCRewrite ------------------------------
(***************************************************************************)
(* Rewriting by a ruleset as a transition system: states are trees, steps  *)
(* are rule applications.  Checks that the strategy of Match is the         *)
(* declared one (first rule, first subtree in preorder, everything else     *)
(* untouched), that it ends at a tree no rule applies to, and, for sound     *)
(* rules, that every step preserves the value.                              *)
(***************************************************************************)
EXTENDS RuleText
CONSTANT Size
VARIABLES x0, x, n, Rules

Texts == <<"a-b -> a+(-b)", "-(a+b) -> (-a)+(-b)", "-(a*b) -> (-a)*b", "--a -> a", "a*(b+c) -> a*b+a*c", "(a+b)*c -> a*c+b*c",
           "a+b -> sum(a,b)", "sum([l],sum([m]),[n]) -> sum([l],[m],[n])", "sum([l],0,[m]) -> sum([l],[m])", "a*b -> prod(a,b)",
           "prod([l],prod([m]),[n]) -> prod([l],[m],[n])", "prod([l],0,[m]) -> 0", "prod([l],1,[m]) -> prod([l],[m])",
           "sum([l],a,[m],b,[n]) -> sum([l],[m],[n]) WHERE equal(a,-b) || equal(b,-a)", "sum([l],a,[m],a,[n]) -> sum([l],prod(2,a),[m],[n])",
           "sum(a) -> a", "sum() -> 0", "prod(a) -> a", "prod() -> 1",
           "sum(a,[l],b,[m]) -> sum(a+b,[l],[m]) WHERE type(a)==CONST ; type(b)==CONST">>
\* the last one would undo the seventh forever: leave it out
\* the parsed rules are kept in a variable that never changes

V(s) == [k |-> "var", n |-> s]
Leaves == {V("x"), V("y"), NumT(Zero), NumT(One), NumT(NInt(2))}
Op(p, s, c) == [k |-> "op", p |-> p, n |-> s, c |-> c]
RECURSIVE Trees(_)
Trees(d) == IF d = 0 THEN Leaves
            ELSE LET T == Trees(d - 1)
                     B == IF d < 2 THEN T ELSE {y \in T : y.k = "op"} \cup {V("x"), NumT(NInt(2))}
                 IN T \cup {Op("inf", s, <<a, b>>) : s \in {"+", "-", "*"}, a \in B, b \in IF d < 2 THEN T ELSE Leaves}
                      \cup {Op("pre", "-", <<a>>) : a \in T}

Init == x0 \in Trees(Size) /\ x = x0 /\ n = 0 /\ Rules = [i \in 1..(Len(Texts) - 1) |-> ParseRule(Texts[i])]
S == Step(Rules, x, 1)
Next == S.f /\ x' = S.x /\ n' = n + 1 /\ UNCHANGED <<x0, Rules>>
Spec == Init /\ [][Next]_<<x0, x, n, Rules>> /\ WF_<<x0, x, n, Rules>>(Next)

Points == {[v \in {"x", "y"} |-> IF v = "x" THEN <<NumT(a)>> ELSE <<NumT(b)>>] : a \in {NInt(3), <<-1, 2>>}, b \in {NInt(-7), <<5, 4>>}}
ValueAt(e, t) == PropValue(Inst(t, e)[1])
Value0 == \A e \in Points : LET v == ValueAt(e, x0)
                                w == ValueAt(e, x)
                            IN v.e = "" /\ w.e = "" /\ TEq(NumT(v.v), NumT(w.v))

\* positions in preorder
RECURSIVE Positions(_), PosKids(_, _)
PosKids(c, i) == IF i > Len(c) THEN <<>> ELSE LET q == Positions(c[i]) IN [k \in 1..Len(q) |-> <<i>> \o q[k]] \o PosKids(c, i + 1)
Positions(t) == << <<>> >> \o (IF t.k = "op" THEN PosKids(t.c, 1) ELSE <<>>)
RECURSIVE AtPos(_, _), Replace(_, _, _)
AtPos(t, q) == IF q = <<>> THEN t ELSE AtPos(t.c[Head(q)], Tail(q))
Replace(t, q, y) == IF q = <<>> THEN y ELSE [t EXCEPT !.c[Head(q)] = Replace(t.c[Head(q)], Tail(q), y)]

\* the step declared: at the least rule with a match, at the first position with one
Declared(t) ==
  LET Q == Positions(t)
      M == TLCEval([i \in 1..Len(Rules) |-> {k \in 1..Len(Q) : Matchings(Rules[i], AtPos(t, Q[k])) # <<>>}])
      I == {i \in 1..Len(Rules) : M[i] # {}}
      i == CHOOSE j \in I : \A k \in I : j <= k
      k == CHOOSE j \in M[i] : \A h \in M[i] : j <= h
  IN IF I = {} THEN [f |-> FALSE, x |-> t]
     ELSE [f |-> TRUE, x |-> Replace(t, Q[k], Build(Rules[i].after, Matchings(Rules[i], AtPos(t, Q[k]))[1], TokOf(AtPos(t, Q[k])))[1])]
Strategy == Declared(x).f = S.f /\ (S.f => Declared(x).x = S.x)
NoNewVars == VarsOf(x) \subseteq VarsOf(x0)
\* a bounded run is the beginning of the unbounded one, and reports its length
Bounded == n > 0 => LET a == Apply(Rules, x0, n, 0) IN a.n = n /\ a.x = x
Fixpoint == ~S.f => LET a == Apply(Rules, x0, 0, 0) IN a.n = n /\ a.x = x
Terminates == <>(~S.f)
=============================================================================
