-------------------------------- MODULE Help ---------------------------------
(***************************************************************************)
(* What the help command shows of a state of the session: the operators,    *)
(* as the parser and the evaluator know them, and the definitions in force. *)
(* Headings, descriptions and the overview of the commands are free.        *)
(***************************************************************************)
EXTENDS Session

\* the built-in operators in the order they are listed in
Order == <<"pre $", "pre @", "post '", "fn deriv", "inf +", "inf -", "inf *", "inf /", "inf ^", "inf C", "inf mod", "pre +", "pre -",
           "post !", "post %", "fn exp", "fn root", "fn sqrt", "fn log", "fn ln", "fn ld", "fn lg", "fn sin", "fn cos", "fn tan",
           "fn asin", "fn acos", "fn atan", "fn sinh", "fn cosh", "fn tanh", "fn asinh", "fn acosh", "fn atanh", "fn max", "fn min",
           "fn abs", "fn ceil", "fn floor", "fn round", "fn trunc", "fn frac", "fn sgn", "fn sum", "fn prod", "fn avg", "fn gcd",
           "fn lcm", "fn rand", "fn fib", "fn gamma", "fn var", "fn pi", "fn e", "fn phi", "fn clight", "fn csound", "fn ans">>
Place(o) == SubSeq(o, 1, Find(o, " ", 1) - 1)
Name(o) == From(o, Find(o, " ", 1) + 1)
\* it is complete and lists nothing twice
Complete == /\ \A i, j \in 1..Len(Order) : i # j => Order[i] # Order[j]
            /\ {Order[i] : i \in 1..Len(Order)} =
                 {"pre " \o n : n \in DOMAIN ArithPre} \cup {"inf " \o n : n \in DOMAIN ArithInf}
                 \cup {"post " \o n : n \in DOMAIN ArithPost} \cup {"fn " \o n : n \in DOMAIN ArithFn}
ASSUME Complete

ArityText(n) == IF ArithFn[n] = -1 THEN "*" ELSE NatStr(ArithFn[n])
Notation(o) ==
  LET n == Name(o) IN
  CASE Place(o) = "pre" -> n \o "x"
    [] Place(o) = "post" -> "x" \o n
    [] Place(o) = "inf" -> IF IsLetter(Ch(n, 1)) THEN "x " \o n \o " y" ELSE "x" \o n \o "y"
    [] OTHER -> IF ArithFn[n] = 0 THEN n ELSE n \o Paren(ArityText(n))

(* ------------------------------- columns ------------------------------- *)
RECURSIVE Longest(_)
Longest(ts) == IF ts = <<>> THEN 0 ELSE MaxOf(Len(Head(ts)), Longest(Tail(ts)))
\* cols: <<titles and entries, "l" or "r">>; the lines with all columns beside each other
Column(ts, how, i) == LET w == Longest(ts) IN IF how = "l" \/ i = 1 THEN ts[i] \o Repeat(" ", w - Len(ts[i])) ELSE Repeat(" ", w - Len(ts[i])) \o ts[i]
Beside(cols) == [i \in 1..Len(cols[1][1]) |-> Concat([k \in 1..Len(cols) |-> Column(cols[k][1], cols[k][2], i)])]

\* the listing of definitions
Left(d) == d.n \o (IF d.ps = <<>> THEN "" ELSE Paren(Concat([i \in 1..Len(d.ps) |-> (IF i > 1 THEN "," ELSE "") \o d.ps[i]])))
Body(s, d) == TreeText(CtxOf(s.defs, <<>>), d.body)
AllTracked(s) == \A i \in 1..Len(s.defs) : Tracked(s.defs[i].body)
Listed(s) ==
  LET ls == [i \in 1..Len(s.defs) |-> Left(s.defs[i])]
      bs == [i \in 1..Len(s.defs) |-> Body(s, s.defs[i])]
      Fill(t, w) == t \o Repeat(" ", w - Len(t))
  IN [i \in 1..Len(s.defs) |-> Fill(ls[i], Longest(ls)) \o " = " \o Fill(bs[i], Longest(bs))]

(* ------------------------------- reading ------------------------------- *)
RECURSIVE LinesIn(_)
LinesIn(t) == IF t = "" THEN <<>> ELSE LET i == Find(t, "\n", 1) IN IF i = 0 THEN <<t>> ELSE <<SubSeq(t, 1, i - 1)>> \o LinesIn(From(t, i + 1))
IsHeading(l) == l # "" /\ Ch(l, Len(l)) = ":"
Headings(ls) == SelectSeq([i \in 1..Len(ls) |-> i], LAMBDA i : IsHeading(ls[i]))
\* the lines below the k-th heading, without blank ones
Block(ls, k) == LET h == Headings(ls) IN SelectSeq(SubSeq(ls, h[k] + 1, IF k < Len(h) THEN h[k + 1] - 1 ELSE Len(ls)), LAMBDA l : l # "")
RECURSIVE Below(_, _, _)
Below(ls, k, n) == IF k > n THEN <<>> ELSE Block(ls, k) \o Below(ls, k + 1, n)

\* "" or what is wrong with the output of "help" in state s
HelpBad(s, out) ==
  LET ls == LinesIn(out)
      n == Len(Headings(ls)) - (IF s.defs = <<>> THEN 0 ELSE 1)
      ops == Concat([i \in 1..Len(Order) |-> Notation(Order[i]) \o " "])
  IN IF n < 1 THEN "help should list operators" \o (IF s.defs = <<>> THEN "" ELSE " and definitions")
     ELSE IF Concat(Below(ls, 1, n)) # ops THEN "help should list the operators " \o ops
     ELSE IF s.defs # <<>> /\ AllTracked(s) /\ Block(ls, n + 1) # Listed(s) THEN "help should list the definitions " \o ToString(Listed(s))
     ELSE ""

(* --------------------------- help operators ---------------------------- *)
Pick(p, P(_)) == LET is == SelectSeq(Order, LAMBDA o : Place(o) = p /\ P(Name(o))) IN [i \in 1..Len(is) |-> Name(is[i])]
EveryName(n) == TRUE
Titled(title, ns, F(_)) == [i \in 1..(Len(ns) + 1) |-> IF i = 1 THEN " " \o title \o " " ELSE F(ns[i - 1])]
Cell(t) == " " \o t \o " "
ConstText(s, n) ==
  CASE n = "pi" -> "3.141592654" [] n = "e" -> "2.718281828" [] n = "phi" -> "1.618033989" [] n = "clight" -> "299792458" [] n = "csound" -> "343.2"
    [] n = "ans" -> IF s.hist = <<>> THEN "" ELSE NumText(s.hist[Len(s.hist)])
ConstCell(s, n) == IF n = "ans" /\ s.hist = <<>> THEN "" ELSE Cell(ConstText(s, n))
NamesCol(ns) == <<Titled("Name", ns, Cell), "l">>
\* the five tables without their descriptions
Tables(s) ==
  LET inf == Pick("inf", EveryName)  pre == Pick("pre", EveryName)  post == Pick("post", EveryName)
      fn == Pick("fn", LAMBDA n : ArithFn[n] # 0)  con == Pick("fn", LAMBDA n : ArithFn[n] = 0)
  IN << Beside(<<NamesCol(inf), <<Titled("Precedence", inf, LAMBDA n : Cell(NatStr(ArithInf[n][1]))), "r">>,
                 <<Titled("Assoc.", inf, LAMBDA n : Cell(IF ArithInf[n][2] = "L" THEN "Left" ELSE "Right")), "l">>>>),
        Beside(<<NamesCol(pre), <<Titled("Precedence", pre, LAMBDA n : Cell(NatStr(ArithPre[n]))), "r">>>>),
        Beside(<<NamesCol(post), <<Titled("Precedence", post, LAMBDA n : Cell(NatStr(ArithPost[n]))), "r">>>>),
        Beside(<<NamesCol(fn), <<Titled("Arity", fn, LAMBDA n : Cell(ArityText(n))), "r">>>>),
        IF s.hist # <<>> /\ ConstText(s, "ans") = UText THEN <<>>
        ELSE Beside(<<NamesCol(con), <<Titled("Value", con, LAMBDA n : ConstCell(s, n)), "r">>>>) >>
OpsBad(s, out) ==
  LET ls == LinesIn(out)
      ts == Tables(s)
      Bad(k) == ts[k] # <<>> /\ LET b == Block(ls, k) IN \/ Len(b) # Len(ts[k])
                                                       \/ \E i \in 1..Len(b) : ~StartsWith(b[i], ts[k][i])
  IN IF Len(Headings(ls)) # 5 THEN "there should be five lists"
     ELSE IF \E k \in 1..5 : Bad(k) THEN "the list should begin with " \o ToString(ts[CHOOSE k \in 1..5 : Bad(k)])
     ELSE ""

(* What is listed, entered again, has the same meaning.                    *)
RECURSIVE Enter(_, _)
Enter(s, ls) == IF ls = <<>> THEN s ELSE Enter(Exec([f \in {} |-> <<>>], FALSE, s, Head(ls)).s, Tail(ls))
Meaning(s) == [i \in 1..Len(s.defs) |-> <<s.defs[i].n, s.defs[i].ps, Bare(s.defs[i].body)>>]
Relisted(s) == (s.sure /\ s.rules = <<>> /\ AllTracked(s)) => Meaning(Enter(S0, Listed(s))) = Meaning(s)
=============================================================================
