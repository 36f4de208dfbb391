------------------------------- MODULE Printer -------------------------------
(* How a tree is written as text with as few parentheses as the convention   *)
(* needs.  l / r: the text will have an operator directly to its left/right, *)
(* so a prefix (postfix) operator there is wrapped.                          *)
EXTENDS Grammar

Prec(ctx, t) == CASE t.p = "pre" -> ctx.pre[t.n]
                  [] t.p = "inf" -> ctx.inf[t.n][1]
                  [] t.p = "post" -> ctx.post[t.n]
                  [] t.p = "fn" -> 255
Paren(s) == "(" \o s \o ")"

RECURSIVE Show(_, _, _, _), ShowArgs(_, _)
ShowArgs(ctx, c) == IF c = <<>> THEN ""
                    ELSE Show(ctx, c[1], FALSE, FALSE)
                         \o (IF Len(c) = 1 THEN "" ELSE "," \o ShowArgs(ctx, Tail(c)))
Show(ctx, t, l, r) ==
  CASE t.k = "num" -> NumText(t.v)
    [] t.k = "var" -> t.n
    [] t.k = "op" ->
    CASE t.p = "fn" -> IF ctx.fn[t.n] = 0 THEN t.n ELSE t.n \o Paren(ShowArgs(ctx, t.c))
      [] t.p = "pre" ->
           LET a == t.c[1]
               body == t.n \o (IF a.k = "op" /\ Prec(ctx, a) <= Prec(ctx, t) THEN Paren(Show(ctx, a, FALSE, FALSE))
                               ELSE Show(ctx, a, TRUE, ~l /\ r))
           IN IF l THEN Paren(body) ELSE body
      [] t.p = "post" ->
           LET a == t.c[1]
               body == (IF a.k = "op" /\ Prec(ctx, a) < Prec(ctx, t) THEN Paren(Show(ctx, a, FALSE, FALSE))
                        ELSE Show(ctx, a, l /\ ~r, TRUE)) \o t.n
           IN IF r THEN Paren(body) ELSE body
      [] t.p = "inf" ->
           LET a == t.c[1]
               b == t.c[2]
               p == Prec(ctx, t)
               as == ctx.inf[t.n][2]
               left == IF a.k = "op" /\ (Prec(ctx, a) < p \/ (Prec(ctx, a) = p /\ as = "R"))
                       THEN Paren(Show(ctx, a, FALSE, FALSE)) ELSE Show(ctx, a, l, TRUE)
               right == IF b.k = "op" /\ (Prec(ctx, b) < p \/ (Prec(ctx, b) = p /\ (as = "L" \/ b.p = "post")))
                        THEN Paren(Show(ctx, b, FALSE, FALSE)) ELSE Show(ctx, b, TRUE, r)
           IN left \o (IF IsLetter(Ch(t.n, 1)) THEN " " \o t.n \o " " ELSE t.n) \o right

TreeText(ctx, t) == Show(ctx, t, FALSE, FALSE)
=============================================================================
