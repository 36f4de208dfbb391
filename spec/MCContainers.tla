---------------------------- MODULE MCContainers -----------------------------
(* All behaviours of DEPTH operations over the alphabet of operations in the  *)
(* file ALPHABET, which are then replayed in the real code.                  *)
EXTENDS Containers, Json, IOUtils
VARIABLES s, h
A == JsonDeserialize(IOEnv.ALPHABET)
Init == s = Start(A.kind) /\ h = <<>>
Next == /\ Len(h) < A.depth
        /\ \E i \in 1..Len(A.ops) :
             /\ Allowed(A.kind, s, A.ops[i])
             /\ s' = Do(A.kind, s, A.ops[i]).s
             /\ h' = Append(h, i)
Emit == Len(h) < A.depth \/ PrintT("OPS " \o ToJson(h))

\* what makes each machine the structure it stands for
Values(o) == {o[i] : i \in 2..Len(o)}
Laws ==
  CASE A.kind = "trie" -> \A w \in DOMAIN s : LongestPrefix(s, w) = Len(w) /\ TrieDo(TrieDo(s, <<"rem", w>>).s, <<"add", w, s[w]>>).s = s
    [] A.kind = "list" -> \A i \in 0..Len(s) : Without(Insert(s, i, 9), i) = s
    [] A.kind = "ops"  -> /\ \A i, j \in 1..Len(s.t) : i # j => ~(s.t[i].p = s.t[j].p /\ s.t[i].n = s.t[j].n)
                          /\ \A i, j \in 1..Len(s.t) : s.t[i].p = "inf" /\ s.t[j].p = "inf" /\ s.t[i].prec = s.t[j].prec => s.t[i].as = s.t[j].as
                          /\ s.g # NoOp => \E i \in 1..Len(s.t) : s.t[i] = s.g
    [] OTHER -> TRUE
=============================================================================
