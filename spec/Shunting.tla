------------------------------ MODULE Shunting -------------------------------
(***************************************************************************)
(* The parser of the calculator as a machine that reads one token per step *)
(* with a stack of pending operators and a stack of operands (Dijkstra's   *)
(* shunting yard).  The design theorem, checked for every token sequence   *)
(* up to a bound: stopping the machine after any sequence of tokens yields *)
(* what Grammar says about that sequence - the same tree, or the same      *)
(* class of error at the same token.                                       *)
(***************************************************************************)
EXTENDS Printer

CONSTANTS Ctx, Alphabet, MaxTokens

VARIABLES read,      \* tokens read so far
          ops,       \* pending operators; [p |-> "("] is an open parenthesis
          nodes,     \* operands
          await,     \* is an operator (not an operand) expected next?
          params,    \* does a parameter list have to follow?
          err, at    \* first error and the index of its token
vars == <<read, ops, nodes, await, params, err, at>>

Open(j) == [p |-> "(", n |-> "", ar |-> 0, t |-> j]
Entry(p, n, ar, j) == [p |-> p, n |-> n, ar |-> ar, t |-> j]
PrecOf(o) == CASE o.p = "pre" -> Ctx.pre[o.n] [] o.p = "inf" -> Ctx.inf[o.n][1]
               [] o.p = "post" -> Ctx.post[o.n] [] o.p \in {"fn", "gfn"} -> 255
AssocOf(o) == IF o.p = "inf" THEN Ctx.inf[o.n][2] ELSE "L"

\* a machine configuration while it handles one token
M(os, ns, e, a) == [ops |-> os, nodes |-> ns, err |-> e, at |-> a]
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

\* builds the operator on top of the stack
Reduce(m) ==
  LET o == Last(m.ops)
      n == Len(m.nodes)
  IN IF o.p = "(" THEN [m EXCEPT !.ops = Front(@)]
     ELSE IF o.p \in {"fn", "gfn"} /\ Ctx.fn[o.n] # -1 /\ Ctx.fn[o.n] # o.ar
     THEN [m EXCEPT !.err = "FUNCTION_WRONG_ARITY", !.at = o.t]
     ELSE [m EXCEPT !.ops = Front(@),
                    !.nodes = Append(SubSeq(@, 1, n - o.ar), OpNode(IF o.p = "gfn" THEN "fn" ELSE o.p, o.n, SubSeq(@, n - o.ar + 1, n), o.t))]

RECURSIVE ReduceToOpen(_), ReduceFor(_, _), ReduceCalls(_)
\* completes calls that have had their parameter list
ReduceCalls(m) == IF m.err # "" \/ m.ops = <<>> THEN m
                  ELSE IF Last(m.ops).p = "fn" THEN ReduceCalls(Reduce(m)) ELSE m
ReduceToOpen(m) == IF m.err # "" \/ m.ops = <<>> THEN m
                   ELSE IF Last(m.ops).p = "(" THEN m ELSE ReduceToOpen(Reduce(m))
ReduceFor(m, o) ==
  IF m.err # "" \/ m.ops = <<>> THEN m
  ELSE IF Last(m.ops).p # "(" /\ (PrecOf(o) < PrecOf(Last(m.ops)) \/ (PrecOf(o) = PrecOf(Last(m.ops)) /\ AssocOf(o) = "L"))
  THEN ReduceFor(Reduce(m), o) ELSE m
Push(m, o) == LET r == IF o.p \in {"inf", "post"} THEN ReduceFor(m, o) ELSE m IN
              IF r.err # "" THEN r ELSE [r EXCEPT !.ops = Append(@, o)]
Oops(m, e, j) == [m EXCEPT !.err = e, !.at = j]
TopIs(m, ps) == IF m.ops = <<>> THEN FALSE ELSE Last(m.ops).p \in ps

\* all results are <<machine, await', params'>>
Step(m0, t, j) ==
  LET implied == await /\ Ctx.glue # "" /\ ~IsClose(t) /\ ~IsDelim(t) /\ t \notin DOMAIN Ctx.inf /\ t \notin DOMAIN Ctx.post
      m == IF ~implied THEN m0
           ELSE IF ~GlueIsFn(Ctx) THEN Push(m0, Entry("inf", Ctx.glue, 2, j))
           ELSE LET r == ReduceCalls(m0) IN IF r.err # "" THEN r ELSE Push(r, Entry("gfn", Ctx.glue, 2, j))
      w == await /\ ~implied
  IN IF m.err # "" THEN <<m, w, params>>
     ELSE IF IsOpen(t) THEN
            IF w THEN <<Oops(m, "EXPECTED_INFIX", j), w, params>>
            ELSE <<[m EXCEPT !.ops = Append(@, Open(j))], w, FALSE>>
     ELSE IF params THEN <<Oops(m, "EXPECTED_PARAM_LIST", j), w, params>>
     ELSE IF IsClose(t) THEN
            IF ~w /\ TopIs(m, {"pre", "inf", "post", "fn", "gfn"}) THEN <<Oops(m, "UNEXPECTED_CLOSING_PAREN", j), w, params>>
            ELSE LET r == ReduceToOpen(m) IN
                 IF r.err # "" THEN <<r, w, params>>
                 ELSE IF r.ops = <<>> THEN <<Oops(r, "UNEXPECTED_CLOSING_PAREN", j), w, params>>
                 ELSE LET s == [r EXCEPT !.ops = Front(@)]
                          isCall == TopIs(s, {"fn"})
                      IN IF w THEN <<IF isCall THEN [s EXCEPT !.ops[Len(s.ops)].ar = @ + 1] ELSE s, TRUE, FALSE>>
                         ELSE IF isCall /\ (IF isCall THEN Last(s.ops).ar = 0 ELSE FALSE) THEN <<s, TRUE, FALSE>>
                         ELSE <<Oops(s, "UNEXPECTED_CLOSING_PAREN", j), w, params>>
     ELSE IF IsDelim(t) THEN
            IF ~w THEN <<Oops(m, "UNEXPECTED_DELIMITER", j), w, params>>
            ELSE LET r == ReduceToOpen(m)
                     k == Len(r.ops) - 1
                 IN IF r.err # "" THEN <<r, w, params>>
                    ELSE IF (IF k >= 1 THEN r.ops[k].p = "fn" ELSE FALSE)
                    THEN <<[r EXCEPT !.ops[k].ar = @ + 1], FALSE, FALSE>>
                    ELSE <<Oops(r, "UNEXPECTED_DELIMITER", j), w, params>>
     ELSE IF ~w /\ t \in DOMAIN Ctx.fn THEN
            IF Ctx.fn[t] = 0 THEN <<Reduce(Push(m, Entry("fn", t, 0, j))), TRUE, FALSE>>
            ELSE <<Push(m, Entry("fn", t, 0, j)), FALSE, TRUE>>
     ELSE IF ~w /\ t \in DOMAIN Ctx.pre THEN <<Push(m, Entry("pre", t, 1, j)), FALSE, FALSE>>
     ELSE IF w /\ t \in DOMAIN Ctx.inf THEN <<Push(m, Entry("inf", t, 2, j)), FALSE, FALSE>>
     ELSE IF w /\ t \in DOMAIN Ctx.post THEN
            LET r == Push(m, Entry("post", t, 1, j)) IN <<IF r.err # "" THEN r ELSE Reduce(r), TRUE, FALSE>>
     ELSE IF w THEN <<Oops(m, "EXPECTED_INFIX", j), w, params>>
     ELSE IF IsLiteral(t) THEN <<[m EXCEPT !.nodes = Append(@, NumNode(LiteralVal(t), j))], TRUE, FALSE>>
     ELSE IF t \in DOMAIN Ctx.inf \cup DOMAIN Ctx.post THEN <<Oops(m, "UNEXPECTED_INFIX", j), w, params>>
     ELSE IF ~IsLetter(Ch(t, 1)) THEN <<Oops(m, "UNEXPECTED_CHARACTER", j), w, params>>
     ELSE <<[m EXCEPT !.nodes = Append(@, VarNode(t, j))], TRUE, FALSE>>

RECURSIVE Drain(_, _)
Drain(m, n) == IF m.err # "" \/ m.ops = <<>> THEN m
               ELSE IF Last(m.ops).p = "(" THEN Oops(m, "EXCESS_OPENING_PAREN", n)
               ELSE Drain(Reduce(m), n)

\* what the machine answers if the input ends here
Answer ==
  LET n == Len(read)
      m == IF err # "" THEN M(ops, nodes, err, at)
           ELSE IF params THEN M(ops, nodes, "EXPECTED_PARAM_LIST", n)
           ELSE IF ~await THEN M(ops, nodes, "UNEXPECTED_END_OF_EXPR", n)
           ELSE Drain(M(ops, nodes, "", 0), n)
  IN [err |-> m.err, at |-> m.at, tree |-> IF m.err = "" THEN m.nodes[1] ELSE NumNode(U, 0),
      left |-> IF m.err = "" THEN Len(m.nodes) ELSE 1]

Init == read = <<>> /\ ops = <<>> /\ nodes = <<>> /\ await = FALSE /\ params = FALSE /\ err = "" /\ at = 0

Read(t) ==
  /\ err = "" /\ Len(read) < MaxTokens
  /\ read' = Append(read, t)
  /\ LET s == Step(M(ops, nodes, err, at), t, Len(read)) IN
     /\ ops' = s[1].ops /\ nodes' = s[1].nodes /\ err' = s[1].err /\ at' = s[1].at
     /\ await' = s[2] /\ params' = s[3]
Next == \E t \in Alphabet : Read(t)

(* --------------------------- theorems ---------------------------------- *)
Agrees ==
  LET p == Parse(Ctx, read) IN
  /\ Answer.err = p.err /\ Answer.at = p.at /\ Answer.left = 1
  /\ p.err = "" => Answer.tree = p.tree

\* the text of an accepted expression is read as the same tree
RECURSIVE Spell(_)
Spell(ts) == IF ts = <<>> THEN "" ELSE IF Len(ts) = 1 THEN Head(ts) ELSE Head(ts) \o " " \o Spell(Tail(ts))
RoundTrip ==
  LET p == Parse(Ctx, read) IN
  LET q == Parse(Ctx, Tokenize(Names(Ctx), TreeText(Ctx, p.tree)))
  IN p.err = "" => q.err = "" /\ Bare(q.tree) = Bare(p.tree)
=============================================================================
