------------------------------- MODULE MCRules -------------------------------
(***************************************************************************)
(* The rules of a rule file are identities.  For every rule that is not     *)
(* about derivatives, and every way of filling its variables with small     *)
(* numbers (as constants and as operations) and its lists with nothing and  *)
(* with two numbers, such that the constraints hold, both sides have the    *)
(* same value wherever both have one.  Evaluated exactly; functions that    *)
(* the model does not track (sin, ln, ...) are replaced by polynomials, as  *)
(* a rule that does not mention them holds for any function.  Rules that    *)
(* break this are printed, for the check to try them out.                  *)
(***************************************************************************)
EXTENDS RuleText, Json, IOUtils
VARIABLES at, m
vars == <<at, m>>
Sets == JsonDeserialize(IOEnv.LOADED)[IOEnv.RULES].sets
CONSTANT WIDE

Op1(v) == [k |-> "op", p |-> "pre", n |-> "$", c |-> << NumT(v) >>]
Consts == {<<-2, 1>>, <<0, 1>>, <<3, 1>>, <<1, 2>>}
Plain == {<<NumT(v)>> : v \in Consts} \cup {<<Op1(v)>> : v \in {<<-1, 1>>, <<2, 1>>} \cup (IF WIDE THEN {<<-1, 2>>} ELSE {})}
         \cup {<< [k |-> "op", p |-> "pre", n |-> "-", c |-> << NumT(<<3, 1>>) >>] >>}
Filled == {<<>>, <<NumT(<<5, 1>>), Op1(<<-3, 2>>)>>} \cup (IF WIDE THEN {<<Op1(<<2, 1>>)>>} ELSE {})
\* Functions that are not tracked: a point of the unit circle that can be written exactly
Cos(v) == IF IsZero(v) THEN One ELSE IF IsNeg(v) THEN NNeg(One) ELSE Zero
Sin(v) == IF IsZero(v) \/ IsNeg(v) THEN Zero ELSE IF v = <<3, 1>> THEN One ELSE NNeg(One)
Sized(r) == r.e = "" /\ r.v # U /\ r.v # NaN /\ Finite(r.v)
RECURSIVE Circle(_)
Circle(x) ==
  IF x.k # "op" THEN x
  ELSE LET c == TLCEval([i \in 1..Len(x.c) |-> Circle(x.c[i])])
           r == PureValue(c[1], <<>>)
       IN IF x.p = "fn" /\ x.n \in {"sin", "cos", "tan"} /\ Sized(r)
          THEN CASE x.n = "sin" -> NumT(Sin(r.v))
                 [] x.n = "cos" -> NumT(Cos(r.v))
                 [] x.n = "tan" -> [k |-> "op", p |-> "inf", n |-> "/", c |-> << NumT(Sin(r.v)), NumT(Cos(r.v)) >>]
          ELSE [x EXCEPT !.c = c]
\* count(...) is settled by another rule of the file
Side(x) == PureValue(Circle(ReduceFn(x, "count")), <<>>)
Rule == Sets[at[1]][at[2]]
Applies == \A i \in 1..Len(Rule.cons) : Holds(Rule.cons[i], m) = "T"
Equal == LET a == Inst(Rule.pat, m)
             b == Inst(Rule.after, m)
         IN Len(a) = 1 /\ (Len(b) # 1 \/ LET u == Side(a[1])
                                              w == Side(b[1])
                                          IN Sized(u) /\ Sized(w) => NEq(u.v, w.v))
Both == LET a == Inst(Rule.pat, m)
            b == Inst(Rule.after, m)
        IN Len(b) = 1 /\ Sized(Side(a[1])) /\ Sized(Side(b[1]))

Vars == VarsOf(Rule.pat)
Filling == DOMAIN m # Vars
Init == \E s \in 1..Len(Sets) : \E r \in 1..Len(Sets[s]) :
          /\ ~UsesFn(Sets[s][r].pat, "deriv")
          /\ at = <<s, r>>
          /\ m = [n \in {} |-> <<>>]
\* one variable after another
Next == /\ Filling
        /\ LET n == CHOOSE n \in Vars \ DOMAIN m : TRUE IN \E w \in (IF IsList(n) THEN Filled ELSE Plain) : m' = Put(m, n, w)
        /\ at' = at
Sound == Filling \/ (Applies => Equal) \/ PrintT("UNSOUND " \o ToString(at[1]) \o " " \o ToString(at[2]))
Shown == Filling \/ ~(Applies /\ Both) \/ PrintT("USED " \o ToString(at[1]) \o " " \o ToString(at[2]))
=============================================================================
