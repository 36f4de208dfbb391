------------------------------- MODULE Grammar -------------------------------
(***************************************************************************)
(* The language of expressions over a table of operators                   *)
(*   ctx = [pre   |-> [name |-> precedence],                               *)
(*          inf   |-> [name |-> <<precedence, "L"/"R">>],                  *)
(*          post  |-> [name |-> precedence],                               *)
(*          fn    |-> [name |-> arity, -1 for arbitrary],                  *)
(*          glue  |-> name of the infix operator that is implied between   *)
(*                    two neighbouring operands, or ""]                    *)
(*                                                                         *)
(* Scan says which token sequences are well formed, gives every token its  *)
(* role and locates the leftmost error.  Build gives the tree that the     *)
(* precedences dictate, by precedence climbing.                            *)
(***************************************************************************)
EXTENDS Num, Lexer, FiniteSets

\* a function between two operands binds tighter than any operator
GlueIsFn(ctx) == ctx.glue # "" /\ ctx.glue \notin DOMAIN ctx.inf
Names(ctx) == DOMAIN ctx.pre \cup DOMAIN ctx.inf \cup DOMAIN ctx.post \cup DOMAIN ctx.fn

IsOpen(t)  == t \in {"(", "{"}
IsClose(t) == t \in {")", "}"}
IsDelim(t) == t = ","
IsBlank(t) == Ch(t, 1) = " "

\* t: index of the token a node stems from
NumNode(v, t)      == [k |-> "num", v |-> v, t |-> t]
VarNode(n, t)      == [k |-> "var", n |-> n, t |-> t]
OpNode(p, n, c, t) == [k |-> "op", p |-> p, n |-> n, c |-> c, t |-> t]

\* the tree alone
RECURSIVE Bare(_)
Bare(x) == CASE x.k = "num" -> [k |-> "num", v |-> x.v]
             [] x.k = "var" -> [k |-> "var", n |-> x.n]
             [] x.k = "op"  -> [k |-> "op", p |-> x.p, n |-> x.n, c |-> [i \in 1..Len(x.c) |-> Bare(x.c[i])]]

(* ------------------------------- Scan --------------------------------- *)
(* A scan state: mode   - what may come next                               *)
(*               frames - open parentheses, innermost last;                *)
(*                        call frames count the operands already delimited *)
(*               done   - the call that was closed by the previous token,  *)
(*                        its operand count is judged when the next token  *)
(*                        is seen                                          *)
(*               items  - roles of the tokens so far                       *)
NoCall == [f |-> "", c |-> 0, t |-> 0]
Group  == [f |-> "", c |-> 0, t |-> 0, fresh |-> FALSE]
Scan0  == [mode |-> "operand", frames |-> <<>>, done |-> NoCall, items |-> <<>>,
           callee |-> NoCall, err |-> "", at |-> 0]

Fail(st, e, at) == [st EXCEPT !.err = e, !.at = at]
Top(st) == st.frames[Len(st.frames)]
Pop(st) == SubSeq(st.frames, 1, Len(st.frames) - 1)
Stale(fs) == IF fs = <<>> THEN fs ELSE [fs EXCEPT ![Len(fs)].fresh = FALSE]
Item(r, n, t) == [r |-> r, n |-> n, t |-> t]

ArityBad(ctx, call) == call.f # "" /\ ctx.fn[call.f] # -1 /\ ctx.fn[call.f] # call.c

\* token t at index j where an operand is expected
ScanOperand(ctx, st, t, j) ==
  CASE IsOpen(t) -> [st EXCEPT !.frames = Append(Stale(@), Group), !.items = Append(@, Item("(", "", j))]
    [] IsClose(t) ->
         IF st.frames # <<>> /\ Top(st).f # "" /\ Top(st).fresh
         THEN [st EXCEPT !.frames = Pop(st), !.mode = "operator",
                         !.done = [f |-> Top(st).f, c |-> 0, t |-> Top(st).t],
                         !.items = Append(@, Item(")", "", j))]
         ELSE Fail(st, "UNEXPECTED_CLOSING_PAREN", j)
    [] IsDelim(t) -> Fail(st, "UNEXPECTED_DELIMITER", j)
    [] OTHER ->
    CASE t \in DOMAIN ctx.fn ->
           IF ctx.fn[t] = 0
           THEN [st EXCEPT !.mode = "operator", !.done = NoCall, !.frames = Stale(@),
                           !.items = Append(@, Item("const", t, j))]
           ELSE [st EXCEPT !.mode = "params", !.frames = Stale(@), !.callee = [f |-> t, c |-> 0, t |-> j],
                           !.items = Append(@, Item("fn", t, j))]
      [] t \notin DOMAIN ctx.fn /\ t \in DOMAIN ctx.pre ->
           [st EXCEPT !.frames = Stale(@), !.items = Append(@, Item("pre", t, j))]
      [] OTHER ->
      CASE IsLiteral(t) -> [st EXCEPT !.mode = "operator", !.done = NoCall, !.frames = Stale(@),
                                      !.items = Append(@, Item("num", t, j))]
        [] ~IsLiteral(t) /\ (t \in DOMAIN ctx.inf \/ t \in DOMAIN ctx.post) -> Fail(st, "UNEXPECTED_INFIX", j)
        [] ~IsLiteral(t) /\ ~(t \in DOMAIN ctx.inf \/ t \in DOMAIN ctx.post) ->
           IF ~IsLetter(Ch(t, 1)) THEN Fail(st, "UNEXPECTED_CHARACTER", j)
           ELSE [st EXCEPT !.mode = "operator", !.done = NoCall, !.frames = Stale(@),
                           !.items = Append(@, Item("var", t, j))]

\* token t at index j where an operator, a delimiter or a closing parenthesis is expected
ScanOperator(ctx, st, t, j) ==
  LET arity == Fail(st, "FUNCTION_WRONG_ARITY", st.done.t) IN
  CASE IsClose(t) ->
         IF ArityBad(ctx, st.done) THEN arity
         ELSE IF st.frames = <<>> THEN Fail(st, "UNEXPECTED_CLOSING_PAREN", j)
         ELSE [st EXCEPT !.frames = Pop(st), !.items = Append(@, Item(")", "", j)),
                         !.done = IF Top(st).f = "" THEN NoCall
                                  ELSE [f |-> Top(st).f, c |-> Top(st).c + 1, t |-> Top(st).t]]
    [] IsDelim(t) ->
         IF ArityBad(ctx, st.done) THEN arity
         ELSE IF st.frames = <<>> \/ (st.frames # <<>> /\ Top(st).f = "")
         THEN Fail(st, "UNEXPECTED_DELIMITER", j)
         ELSE [st EXCEPT !.frames = [@ EXCEPT ![Len(@)].c = @ + 1], !.mode = "operand", !.done = NoCall,
                         !.items = Append(@, Item(",", "", j))]
    [] t \in DOMAIN ctx.inf ->
         IF ArityBad(ctx, st.done) THEN arity
         ELSE [st EXCEPT !.mode = "operand", !.done = NoCall, !.items = Append(@, Item("inf", t, j))]
    [] t \notin DOMAIN ctx.inf /\ t \in DOMAIN ctx.post ->
         IF ArityBad(ctx, st.done) THEN arity
         ELSE [st EXCEPT !.done = NoCall, !.items = Append(@, Item("post", t, j))]
    [] OTHER ->
         IF ctx.glue = "" THEN Fail(st, "EXPECTED_INFIX", j)
         ELSE IF ArityBad(ctx, st.done) THEN arity
         ELSE ScanOperand(ctx, [st EXCEPT !.mode = "operand", !.done = NoCall,
                                          !.items = Append(@, Item(IF GlueIsFn(ctx) THEN "gfn" ELSE "inf", ctx.glue, j))], t, j)

ScanToken(ctx, st, t, j) ==
  IF st.err # "" \/ IsBlank(t) THEN st
  ELSE CASE st.mode = "params" ->
              IF IsOpen(t)
              THEN [st EXCEPT !.mode = "operand", !.items = Append(@, Item("call(", "", j)),
                              !.frames = Append(@, [f |-> st.callee.f, c |-> 0, t |-> st.callee.t, fresh |-> TRUE])]
              ELSE Fail(st, "EXPECTED_PARAM_LIST", j)
         [] st.mode = "operand" -> ScanOperand(ctx, st, t, j)
         [] st.mode = "operator" -> ScanOperator(ctx, st, t, j)

RECURSIVE ScanAll(_, _, _, _)
ScanAll(ctx, toks, i, st) ==
  IF i > Len(toks) \/ st.err # "" THEN st
  ELSE ScanAll(ctx, toks, i + 1, ScanToken(ctx, st, toks[i], i - 1))

Scan(ctx, toks) ==
  LET st == ScanAll(ctx, toks, 1, Scan0)
      n == Len(toks)
  IN IF st.err # "" THEN st
     ELSE CASE st.mode = "params" -> Fail(st, "EXPECTED_PARAM_LIST", n)
            [] st.mode = "operand" -> Fail(st, "UNEXPECTED_END_OF_EXPR", n)
            [] st.mode = "operator" ->
                 IF ArityBad(ctx, st.done) THEN Fail(st, "FUNCTION_WRONG_ARITY", st.done.t)
                 ELSE IF st.frames # <<>> THEN Fail(st, "EXCESS_OPENING_PAREN", n)
                 ELSE st

(* ------------------------------- Build -------------------------------- *)
\* Does an operator of precedence p, associating as a, belong to the right
\* operand of an enclosing operator of precedence q?
Inside(q, p, a) == p > q \/ (p = q /\ a = "R")

RECURSIVE Expr(_, _, _, _), Climb(_, _, _, _, _), Primary(_, _, _), Args(_, _, _, _)
\* each returns <<tree, index of next item>>
Primary(ctx, it, i) ==
  LET x == it[i] IN
  CASE x.r = "num"   -> <<NumNode(LiteralVal(x.n), x.t), i + 1>>
    [] x.r = "var"   -> <<VarNode(x.n, x.t), i + 1>>
    [] x.r = "const" -> <<OpNode("fn", x.n, <<>>, x.t), i + 1>>
    [] x.r = "("     -> LET e == Expr(ctx, it, i + 1, -1) IN <<e[1], e[2] + 1>>
    [] x.r = "fn"    -> IF it[i + 2].r = ")" THEN <<OpNode("fn", x.n, <<>>, x.t), i + 3>>
                        ELSE LET a == Args(ctx, it, i + 2, <<>>) IN <<OpNode("fn", x.n, a[1], x.t), a[2]>>
    [] x.r = "pre"   -> LET e == Expr(ctx, it, i + 1, ctx.pre[x.n]) IN <<OpNode("pre", x.n, <<e[1]>>, x.t), e[2]>>

Args(ctx, it, i, acc) ==
  LET e == Expr(ctx, it, i, -1) IN
  IF it[e[2]].r = "," THEN Args(ctx, it, e[2] + 1, Append(acc, e[1]))
  ELSE <<Append(acc, e[1]), e[2] + 1>>

Expr(ctx, it, i, q) == LET p == Primary(ctx, it, i) IN Climb(ctx, it, p[2], q, p[1])

Climb(ctx, it, i, q, left) ==
  IF i > Len(it) THEN <<left, i>>
  ELSE LET x == it[i] IN
    IF x.r = "inf" /\ Inside(q, ctx.inf[x.n][1], ctx.inf[x.n][2])
    THEN LET e == Expr(ctx, it, i + 1, ctx.inf[x.n][1])
         IN Climb(ctx, it, e[2], q, OpNode("inf", x.n, <<left, e[1]>>, x.t))
    ELSE IF x.r = "gfn"
    THEN LET e == Expr(ctx, it, i + 1, 255)
         IN Climb(ctx, it, e[2], q, OpNode("fn", x.n, <<left, e[1]>>, x.t))
    ELSE IF x.r = "post" /\ Inside(q, ctx.post[x.n], "L")
    THEN Climb(ctx, it, i + 1, q, OpNode("post", x.n, <<left>>, x.t))
    ELSE <<left, i>>

\* [err |-> "" or error class, at |-> index of offending token, tree]
Parse(ctx, toks) ==
  LET st == Scan(ctx, toks) IN
  IF st.err # "" THEN [err |-> st.err, at |-> st.at, tree |-> NumNode(U, 0)]
  ELSE [err |-> "", at |-> 0, tree |-> Expr(ctx, st.items, 1, -1)[1]]
=============================================================================
