----------------------------- MODULE TraceParse ------------------------------
(* Records of the real tokenizer, parser and printer                          *)
(*   [ctx, text, toks, err, at, tree?, str?, col?, eq?, re?]                  *)
EXTENDS Printer, OpTable, TraceBase

Ctxs == JsonDeserialize(IOEnv.CTXS)
CtxOf(n) == IF n = "arith" THEN Arith ELSE IF n = "prop" THEN Prop ELSE
  LET c == Ctxs[n] IN
  [pre |-> c.pre, inf |-> [x \in DOMAIN c.inf |-> <<c.inf[x][1], IF c.inf[x][2] = 0 THEN "L" ELSE "R">>],
   post |-> c.post, fn |-> c.fn, glue |-> c.glue]
Aspect == IOEnv.ASPECT

RECURSIVE Shown(_)   \* is the text of every number in the tree tracked?
Shown(t) == CASE t.k = "num" -> NumText(t.v) # UText
              [] t.k = "var" -> TRUE
              [] t.k = "op" -> \A i \in 1..Len(t.c) : Shown(t.c[i])
RECURSIVE Same(_, _)  \* equal up to untracked numbers
Same(a, b) == /\ a.k = b.k
              /\ CASE a.k = "num" -> a.v = U \/ b.v = U \/ a.v = b.v
                   [] a.k = "var" -> a.n = b.n
                   [] a.k = "op" -> a.p = b.p /\ a.n = b.n /\ Len(a.c) = Len(b.c)
                                    /\ \A i \in 1..Len(a.c) : Same(a.c[i], b.c[i])

Verdict(r) ==
  LET ctx == CtxOf(r.ctx)
      toks == Tokenize(Names(ctx), r.text)
  IN CASE Aspect = "tokens" ->
            IF r.toks = toks THEN "" ELSE "tokens should be " \o ToJson(toks)
       [] Aspect = "parse" ->
            IF r.toks # toks THEN "" ELSE      \* decided under "tokens"
            LET p == Parse(ctx, toks) IN
            IF p.err # r.err THEN (IF p.err = "" \/ r.err = "" THEN "" ELSE "") \o
                 "error should be '" \o p.err \o "'"
            ELSE IF p.err # "" THEN (IF p.at = r.at THEN "" ELSE "error should be at token " \o ToString(p.at))
            ELSE IF Same(p.tree, r.tree) THEN "" ELSE "tree should be " \o ToJson(p.tree)
       [] Aspect = "tree" ->                   \* well-formed texts only
            LET p == Parse(ctx, toks) IN
            IF p.err # "" THEN ""
            ELSE IF r.err # "" THEN "should be accepted"
            ELSE IF Same(p.tree, r.tree) THEN "" ELSE "tree should be " \o ToJson(p.tree)
       [] Aspect = "print" ->
            IF r.err # "" THEN "" ELSE
            IF Shown(r.tree) /\ r.str # TreeText(ctx, r.tree) THEN "text should be " \o TreeText(ctx, r.tree)
            ELSE IF r.col # r.str THEN "coloured text differs from plain text"
            ELSE IF Shown(r.tree) /\ (r.eq # 1 \/ r.re # r.tree) THEN "text does not parse back"
            ELSE ""
Judge == Report(Verdict(Recs[pos]))
=============================================================================
