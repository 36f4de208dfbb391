---------------------------- MODULE MCStructures -----------------------------
(***************************************************************************)
(* The linked list with its pointers and the trie with its nodes, as they   *)
(* are in memory, refine the sequence and the map of Containers.            *)
(***************************************************************************)
EXTENDS Containers
CONSTANTS NODES, WORDS
VARIABLES first, last, nxt, prv, seq,        \* list: 0 is the null pointer; seq: the nodes in their order
          nodes, term, set                   \* trie: existing nodes (paths), terminal ones; set: the strings
lvars == <<first, last, nxt, prv, seq>>
tvars == <<nodes, term, set>>
N == 1..NODES
Used == {seq[i] : i \in 1..Len(seq)}

Init == /\ first = 0 /\ last = 0 /\ nxt = [n \in N |-> 0] /\ prv = [n \in N |-> 0] /\ seq = <<>>
        /\ nodes = {""} /\ term = {} /\ set = {}

IndexOf(n) == IF n = 0 THEN 0 ELSE CHOOSE i \in 1..Len(seq) : seq[i] = n
InsertAfter(b, new) ==
  LET a == IF b = 0 THEN first ELSE nxt[b] IN
  /\ nxt' = [n \in N |-> IF n = new THEN a ELSE IF n = b THEN new ELSE nxt[n]]
  /\ prv' = [n \in N |-> IF n = new THEN b ELSE IF n = a THEN new ELSE prv[n]]
  /\ first' = (IF b = 0 THEN new ELSE first)
  /\ last' = (IF a = 0 THEN new ELSE last)
  /\ seq' = Insert(seq, IndexOf(b), new)
Delete(n) ==
  LET a == nxt[n]
      b == prv[n]
  IN /\ nxt' = [m \in N |-> IF m = b THEN a ELSE IF m = n THEN 0 ELSE nxt[m]]
     /\ prv' = [m \in N |-> IF m = a THEN b ELSE IF m = n THEN 0 ELSE prv[m]]
     /\ first' = (IF b = 0 THEN a ELSE first)
     /\ last' = (IF a = 0 THEN b ELSE last)
     /\ seq' = Without(seq, IndexOf(n) - 1)

Prefixes(w) == {SubSeq(w, 1, i) : i \in 0..Len(w)}
Kids(ns, w) == {v \in ns : Len(v) = Len(w) + 1 /\ StartsWith(v, w)}
RECURSIVE Prune(_, _, _)
Prune(ns, ts, w) == IF w = "" \/ w \notin ns \/ Kids(ns, w) # {} \/ w \in ts THEN ns
                    ELSE Prune(ns \ {w}, ts, SubSeq(w, 1, Len(w) - 1))
Deepest(w) == CHOOSE v \in nodes \cap Prefixes(w) : \A u \in nodes \cap Prefixes(w) : Len(u) <= Len(v)
Add(w) == nodes' = nodes \cup Prefixes(w) /\ term' = term \cup {w} /\ set' = set \cup {w}
Remove(w) == /\ term' = term \ {w} /\ set' = set \ {w}
             /\ nodes' = Prune(nodes, term', Deepest(w))

Next == \/ /\ UNCHANGED tvars
           /\ \E n \in N : \/ n \notin Used /\ \E b \in Used \cup {0} : InsertAfter(b, n)
                           \/ n \in Used /\ Delete(n)
        \/ /\ UNCHANGED lvars
           /\ \E w \in WORDS : Add(w) \/ Remove(w)

RECURSIVE Chain(_, _, _)
Chain(n, f, k) == IF n = 0 \/ k = 0 THEN <<>> ELSE <<n>> \o Chain(f[n], f, k - 1)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
ListRefines == Chain(first, nxt, NODES + 1) = seq /\ Chain(last, prv, NODES + 1) = Rev(seq)
TrieRefines == term = set /\ nodes = {""} \cup UNION {Prefixes(w) : w \in set}
=============================================================================
