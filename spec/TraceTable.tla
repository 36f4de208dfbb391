----------------------------- MODULE TraceTable ------------------------------
(* Records [ops, lines]: the image of the table that the operations built.   *)
EXTENDS Table, TraceBase
RECURSIVE Build(_, _, _)
Build(t, ops, i) == IF i > Len(ops) \/ ~Allowed(t, ops[i]) THEN t ELSE Build(Do(t, ops[i]), ops, i + 1)
Verdict(r) ==
  LET t == TLCEval(Build(Empty, r.ops, 1))
      im == TLCEval(Image(t))
      B == {i \in 1..Max(Len(im), Len(r.lines)) : i > Len(im) \/ i > Len(r.lines) \/ im[i] # r.lines[i]}
  IN IF t.nc > 0 /\ ~Layout(t).plain THEN ""
     ELSE IF B = {} THEN ""
     ELSE LET i == CHOOSE i \in B : \A j \in B : i <= j
          IN "line " \o ToString(i) \o " of the table should be " \o (IF i > Len(im) THEN "absent" ELSE ToJson(im[i]))
Judge == pos < 1 \/ Report(Verdict(Recs[pos]))
=============================================================================
