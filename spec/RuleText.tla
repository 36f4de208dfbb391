------------------------------- MODULE RuleText ------------------------------
(***************************************************************************)
(* Text of rules:  PATTERN -> REPLACEMENT [WHERE CONSTRAINT ; CONSTRAINT]   *)
(* and of files of rules (README.md, simplification.ruleset).              *)
(***************************************************************************)
EXTENDS Match

MAXVARS == 10
MAXCONS == 3

PropNames == Names(Prop)
PropTree(text) == LET p == Parse(Prop, Tokenize(PropNames, text)) IN
                  IF p.err = "" THEN [ok |-> TRUE, t |-> Bare(p.tree)] ELSE [ok |-> FALSE, t |-> NumT(Zero)]

RECURSIVE Split(_, _)
Split(s, sep) == LET k == Find(s, sep, 1) IN
                 IF k = 0 THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o Split(From(s, k + Len(sep)), sep)

Cut(s, i) == IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)

BadRule == [ok |-> FALSE, pat |-> NumT(Zero), after |-> NumT(Zero), cons |-> <<>>]
MkPattern(left, wh, hasWhere) ==
  LET ws == Split(wh, " ; ")
      cs == IF hasWhere THEN TLCEval([i \in 1..Len(ws) |-> PropTree(ws[i])]) ELSE <<>>
      l == PropTree(left)
      C == TLCEval([i \in 1..Len(cs) |-> cs[i].t])
      V == VarsOf(l.t)
  IN IF ~l.ok \/ Len(cs) > MAXCONS \/ (\E i \in 1..Len(cs) : ~cs[i].ok) THEN BadRule
     ELSE IF Cardinality(V) > MAXVARS \/ (\E i \in 1..Len(cs) : ~(VarsOf(C[i]) \subseteq V)) THEN BadRule
     ELSE [ok |-> TRUE, pat |-> l.t, after |-> NumT(Zero), cons |-> C]

\* PATTERN [WHERE ...]
ParsePattern(s) == LET w == Find(s, " WHERE ", 1) IN
                   MkPattern(Cut(s, w), From(s, w + 7), w # 0)

\* the parts of a rule end at the arrow and at WHERE
ParseRule(s) ==
  LET a == Find(s, "->", 1)
      w == Find(s, " WHERE ", 1)
      lend == IF w # 0 /\ w < a THEN w ELSE a
      P == MkPattern(Cut(s, lend), IF w # 0 /\ w < a THEN SubSeq(s, w + 7, a - 1) ELSE From(s, w + 7), w # 0)
      r == PropTree(IF w > a THEN SubSeq(s, a + 2, w - 1) ELSE From(s, a + 2))
  IN IF a = 0 THEN BadRule
     ELSE IF ~P.ok \/ ~r.ok THEN BadRule
     ELSE IF ~(VarsOf(r.t) \subseteq VarsOf(P.pat)) THEN BadRule
     ELSE [P EXCEPT !.after = r.t]

(* ------------------------------- files -------------------------------- *)
Lines(text) == LET ls == Split(text, "\n") IN
               IF ls[Len(ls)] = "" THEN SubSeq(ls, 1, Len(ls) - 1) ELSE ls
Pruned(line) == LStrip(Cut(line, Find(line, "#", 1)))

\* n: number of rulesets, -1 if malformed; bad, line: the offending line
RECURSIVE ReadLines(_, _, _, _, _)
ReadLines(ls, i, max, sets, ign) ==
  IF i > Len(ls) THEN [n |-> Len(sets), sets |-> sets, bad |-> 0, line |-> "", ign |-> ign]
  ELSE LET l == Pruned(ls[i]) IN
       IF StartsWith(l, "RULESET")
       THEN IF Len(sets) = max THEN [n |-> max, sets |-> sets, bad |-> 0, line |-> "", ign |-> ign]
            ELSE ReadLines(ls, i + 1, max, Append(sets, <<>>), ign)
       ELSE IF l = "" THEN ReadLines(ls, i + 1, max, sets, ign)
       ELSE IF sets = <<>> THEN ReadLines(ls, i + 1, max, sets, ign + 1)
       ELSE LET r == ParseRule(l) IN
            IF ~r.ok THEN [n |-> -1, sets |-> sets, bad |-> i, line |-> l, ign |-> ign]
            ELSE ReadLines(ls, i + 1, max, [sets EXCEPT ![Len(sets)] = Append(@, [pat |-> r.pat, after |-> r.after, cons |-> r.cons])], ign)
ReadRules(text, max) == ReadLines(Lines(text), 1, max, <<>>, 0)
=============================================================================
