------------------------------- MODULE MCMatch -------------------------------
(***************************************************************************)
(* The constructive enumeration of matchings against the declarative       *)
(* definition: for every pattern of a set and every tree up to a size.     *)
(* States: a tree under construction (by adding an operand somewhere) and   *)
(* a pattern.                                                              *)
(***************************************************************************)
EXTENDS RuleText
CONSTANTS Pats, Depth
VARIABLES P, t      \* the parsed pattern and the tree

PatsSmall == {"sum([l])", "sum([l],[m])", "sum([l],a,[m])", "sum([l],a,[m],a,[n])", "sum(a,[l],[l])", "sum([l],[l],1)", "sum([l],prod([m],a,[n]),[o])",
  "sum([l],prod([m]),[n],prod([m]),[o])", "sum([l],a,[m],b) WHERE equal(a,b)", "sum([l],a,[m]) WHERE type(a)==CONST", "a", "[l]", "sum()", "1", "sum(1,[l]) WHERE count([l])==1",
  "prod(sum([l],a),sum(a,[l]))", "sum([l],1,[m]) WHERE equal(sum([l]),sum([m]))", "sum([l],a,[m],b) WHERE type(b)==VAR ; type(a)!=OP", "1 WHERE FALSE", "sum(a,sum([l],a))"}
PatsBig == PatsSmall \cup {"sum([l],[m],[n])", "sum([l],a,[m],b,[n])", "sum([l],sum([m],[n]),[o])", "sum([l],sum([m]),[n]) WHERE count([l],[m])==2", "sum(prod([l]),prod([l],a))",
  "sum(a,b,[l]) WHERE a==b || type(a)==VAR", "sum([l],sum(a,[m]),[n],a)", "prod([l],sum(a,b),[m])", "sum([l],a,[m]) WHERE a>1", "sum([m],[l],[m])"}

Leaf == {NumT(One), NumT(NInt(2)), [k |-> "var", n |-> "x"]}
Fn(n) == [k |-> "op", p |-> "fn", n |-> n, c |-> <<>>]
RECURSIVE Size(_), Grow(_, _)
Size(x) == IF x.k # "op" THEN 1 ELSE LET S[i \in 0..Len(x.c)] == IF i = 0 THEN 1 ELSE S[i - 1] + Size(x.c[i]) IN S[Len(x.c)]
\* trees with one more operand
Grow(x, d) == IF x.k # "op" \/ d = 0 THEN {}
              ELSE {[x EXCEPT !.c = Append(@, y)] : y \in Leaf \cup {Fn("sum"), Fn("prod")}}
                   \cup UNION {{[x EXCEPT !.c[i] = y] : y \in Grow(x.c[i], d - 1)} : i \in 1..Len(x.c)}
MaxSize == IF Pats = PatsBig THEN 5 ELSE 4

Init == P \in {ParsePattern(s) : s \in Pats} /\ t \in Leaf \cup {Fn("sum"), Fn("prod")}
Next == Size(t) < MaxSize /\ t' \in Grow(t, Depth) /\ UNCHANGED P

Ms == Matchings(P, t)
RECURSIVE Slices(_)
Slices(x) == {<<x>>} \cup (IF x.k # "op" THEN {} ELSE
               {SubSeq(x.c, i, j) : i \in 1..(Len(x.c) + 1), j \in 0..Len(x.c)} \cup UNION {Slices(x.c[i]) : i \in 1..Len(x.c)})
Cand(n) == IF IsList(n) THEN Slices(t) ELSE {s \in Slices(t) : Len(s) = 1}
\* what the variables stand for cannot be larger than the tree
RECURSIVE ListSize(_), Maps(_, _)
ListSize(s) == IF s = <<>> THEN 0 ELSE Size(Head(s)) + ListSize(Tail(s))
Maps(V, budget) == IF V = {} THEN {NoMap}
                   ELSE LET n == CHOOSE n \in V : TRUE IN
                        UNION {{Put(m, n, s) : m \in Maps(V \ {n}, budget - ListSize(s))} : s \in {c \in Cand(n) : ListSize(c) <= budget}}
All == {m \in Maps(VarsOf(P.pat), Size(t)) : IsMatching(P, t, m)}

Range(s) == {s[i] : i \in 1..Len(s)}
Sound == \A i \in 1..Len(Ms) : IsMatching(P, t, Ms[i])
Complete == All \subseteq Range(Ms)
Once == Cardinality(Range(Ms)) = Len(Ms)
InOrder == \A i \in 1..(Len(Ms) - 1) : LexLess(Key(P.pat, Ms[i]), Key(P.pat, Ms[i + 1]))
=============================================================================
