----------------------------- MODULE TraceMemory -----------------------------
(* Records of real sessions with the number of blocks on the heap:           *)
(* [inter, lines, files, r, left], r[i] = [ok, out, err, mem], mem counted    *)
(* after line i relative to the beginning, left after the session relative to *)
(* before it.  What is held is a function of the state of the session: two   *)
(* moments with the same definitions, number of results and rules hold the   *)
(* same, whatever happened in between; and in the end nothing is left.       *)
(* Other records [kind, left]: a part of the program was used and what it    *)
(* made was destroyed.                                                       *)
EXTENDS Session, TraceBase
Loaded == IF "LOADED" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.LOADED) ELSE [f \in {} |-> 0]

\* bodies up to the numbers in them (their values take no blocks)
RECURSIVE Shape(_)
Shape(x) == IF x.k = "op" THEN [k |-> "op", p |-> x.p, n |-> x.n, c |-> [i \in 1..Len(x.c) |-> Shape(x.c[i])]]
            ELSE IF x.k = "var" THEN [k |-> "var", p |-> "", n |-> x.n, c |-> <<>>]
            ELSE [k |-> "const", p |-> "", n |-> "", c |-> <<>>]
Held(s) == [defs |-> {[n |-> s.defs[i].n, ps |-> s.defs[i].ps, body |-> Shape(s.defs[i].body)] : i \in 1..Len(s.defs)},
            hist |-> Len(s.hist), rules |-> s.rules]

RECURSIVE Follow(_, _, _, _)
Follow(r, s, i, seen) ==     \* seen: [h |-> what is held, m |-> blocks, at |-> line]
  IF i > Len(r.lines) THEN (IF r.left # 0 THEN "nothing should be left in the end" ELSE "")
  ELSE LET w == Exec(r.files @@ Loaded, r.inter = 1, s, r.lines[i])
           g == r.r[i]
           h == TLCEval(Held(w.s))
           same == {j \in 1..Len(seen) : seen[j].h = h /\ seen[j].m # g.mem}
       IN IF ~w.s.sure \/ w.ok # (g.ok = 1) \/ (w.out # UText /\ w.out # g.out)
          THEN (IF r.left # 0 THEN "nothing should be left in the end" ELSE "")     \* not followed further here
          ELSE IF same # {} THEN LET j == CHOOSE j \in same : TRUE IN
               "line " \o ToString(i) \o " should leave " \o ToString(seen[j].m) \o " blocks as after line " \o ToString(seen[j].at)
          ELSE Follow(r, w.s, i + 1, Append(seen, [h |-> h, m |-> g.mem, at |-> i]))
Verdict(r) == IF r.kind = "session" THEN Follow(r, S0, 1, <<[h |-> Held(S0), m |-> 0, at |-> 0]>>)
              ELSE IF r.left # 0 THEN "nothing should be left in the end" ELSE ""
Judge == Report(Verdict(Recs[pos]))
=============================================================================
