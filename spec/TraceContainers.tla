--------------------------- MODULE TraceContainers ---------------------------
(* Records [kind, start, pay, probes, text, ops, r]: r[i] is what was seen    *)
(* after operation i of ops.                                                *)
EXTENDS Containers, TraceBase
Both(s) == s \o s            \* traversed, reset, and traversed again

SeqSeen(s, g) == IF g.n # Len(s) THEN "the count should be " \o ToString(Len(s))
                 ELSE IF g.e # s THEN "the contents should be " \o ToJson(s)
                 ELSE IF g.it # Both(s) THEN "traversal should give " \o ToJson(s)
                 ELSE ""
ListSeen(s, g) == IF SeqSeen(s, g) # "" THEN SeqSeen(s, g) ELSE IF g.nx # s THEN "following the nodes should give " \o ToJson(s) ELSE ""

Probe(r, s, w) ==
  LET l == LongestPrefix(s, w)
      in == w \in DOMAIN s
  IN << IF in THEN 1 ELSE 0, IF in /\ r.pay = 1 THEN s[w] ELSE -1, l, IF l > 0 /\ r.pay = 1 THEN s[SubSeq(w, 1, l)] ELSE -1 >>
TrieSeen(r, s, g) ==
  LET B == {i \in 1..Len(r.probes) : g.p[i] # Probe(r, s, r.probes[i])}
      o == InOrder(DOMAIN s)
      it == TLCEval([i \in 1..Len(o) |-> [s |-> o[i], v |-> IF r.pay = 1 THEN s[o[i]] ELSE -1]])
  IN IF g.n # Cardinality(DOMAIN s) THEN "the count should be " \o ToString(Cardinality(DOMAIN s))
     ELSE IF B # {} THEN LET i == CHOOSE i \in B : TRUE IN "looking up " \o ToJson(r.probes[i]) \o " should give " \o ToJson(Probe(r, s, r.probes[i]))
     ELSE IF r.through = 1 /\ g.it # Both(it) THEN "traversal should give " \o ToJson(it)
     ELSE ""

StrbSeen(s, g) == IF g.s # s THEN "the text should be " \o ToJson(s) ELSE ""

Places == <<"pre", "inf", "post", "fn">>
SameOp(x, y) == IF x = NoOp THEN y.in = 0
                ELSE /\ y.in = 1 /\ y.n = x.n /\ y.p = x.p /\ y.ar = x.ar
                     /\ x.p = "fn" \/ y.prec = x.prec
                     /\ x.p = "inf" => y.as = x.as
OpsSeen(r, s, g) ==
  LET NN == Len(r.probes)
      W(j) == LookUp(s.t, Places[((j - 1) % 4) + 1], r.probes[((j - 1) \div 4) + 1])
      B == {j \in 1..(4 * NN) : ~SameOp(W(j), g.l[j])}
  IN IF B # {} THEN LET j == CHOOSE j \in B : TRUE IN
                    "looking up " \o Places[((j - 1) % 4) + 1] \o " " \o r.probes[((j - 1) \div 4) + 1] \o " should give " \o ToJson(W(j))
     ELSE IF g.cnt # Len(s.t) THEN "there should be " \o ToString(Len(s.t)) \o " operators"
     ELSE IF Cardinality({g.ids[i] : i \in 1..Len(g.ids)}) # Len(s.t) THEN "identities are shared"
     ELSE IF ~SameOp(s.g, g.g) THEN "the glue operator should be " \o ToJson(s.g)
     ELSE IF g.toks # Tokenize(KnownNames(s), r.text) THEN "the tokens should be " \o ToJson(Tokenize(KnownNames(s), r.text))
     ELSE ""

Seen(r, s, g) == CASE r.kind = "vec" -> SeqSeen(s, g.s) [] r.kind = "list" -> ListSeen(s, g.s) [] r.kind = "trie" -> TrieSeen(r, s, g)
                   [] r.kind = "strb" -> StrbSeen(s, g) [] r.kind = "ops" -> OpsSeen(r, s, g)
RECURSIVE Follow(_, _, _)
Follow(r, s, i) ==
  IF i > Len(r.ops) THEN ""
  ELSE LET d == Do(r.kind, s, r.ops[i])
           seen == Seen(r, d.s, r.r[i])
       IN IF r.kind # "strb" /\ d.ret # r.r[i].ret THEN "operation " \o ToString(i) \o " should return " \o ToString(d.ret)
          ELSE IF seen # "" THEN "after operation " \o ToString(i) \o ": " \o seen
          ELSE Follow(r, d.s, i + 1)
First(r) == IF r.kind = "strb" THEN r.start ELSE Start(r.kind)
Judge == Report(Follow(Recs[pos], First(Recs[pos]), 1))
=============================================================================
