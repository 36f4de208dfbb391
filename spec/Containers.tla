----------------------------- MODULE Containers ------------------------------
(***************************************************************************)
(* The data structures of the engine as abstract machines.  Do(kind, s, o)  *)
(* gives what operation o returns and the next state:                       *)
(*   vec, list  a sequence of numbers (contents of the elements)           *)
(*   trie       a function from strings to payloads                         *)
(*   strb       a string                                                    *)
(*   ops        [t |-> sequence of operators, g |-> glue operator]          *)
(* An operation is a sequence: its name and its operands.                   *)
(***************************************************************************)
EXTENDS Lexer, FiniteSets

R(ret, s) == [ret |-> ret, s |-> s]

(* ------------------------------- vectors ------------------------------- *)
VecOk(s, o) == CASE o[1] \in {"get", "set"} -> o[2] >= 0 /\ o[2] < Len(s) [] OTHER -> TRUE
VecDo(s, o) ==
  CASE o[1] \in {"push", "pushe"} -> R(o[2], Append(s, o[2]))
    [] o[1] = "many" -> R(Len(o) - 1, s \o Tail(o))
    [] o[1] \in {"reps", "bulk"} -> R(o[2], s \o TLCEval([i \in 1..o[2] |-> i % 30]))
    [] o[1] = "pops" -> R(o[2], SubSeq(s, 1, Len(s) - o[2]))
    [] o[1] = "pop"  -> IF s = <<>> THEN R(-2, s) ELSE R(s[Len(s)], SubSeq(s, 1, Len(s) - 1))
    [] o[1] = "peek" -> IF s = <<>> THEN R(-2, s) ELSE R(s[Len(s)], s)
    [] o[1] = "get"  -> R(s[o[2] + 1], s)
    [] o[1] = "set"  -> R(o[2], [s EXCEPT ![o[2] + 1] = o[3]])
    [] o[1] = "clear" -> R(0, <<>>)
    [] o[1] \in {"trim", "ensure"} -> R(0, s)

(* -------------------------------- lists -------------------------------- *)
Insert(s, i, v) == SubSeq(s, 1, i) \o <<v>> \o SubSeq(s, i + 1, Len(s))        \* v at index i
Without(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
ListOk(s, o) == CASE o[1] = "insat" -> o[2] >= 0 /\ o[2] <= Len(s)
                  [] o[1] = "insafter" -> o[2] >= -1 /\ o[2] < Len(s)
                  [] o[1] \in {"delat", "delnode"} -> o[2] >= 0 /\ o[2] < Len(s)
                  [] OTHER -> TRUE
ListDo(s, o) ==
  CASE o[1] = "app" -> R(o[2], Append(s, o[2]))
    [] o[1] = "insat" -> R(o[3], Insert(s, o[2], o[3]))
    [] o[1] = "insafter" -> R(o[3], Insert(s, o[2] + 1, o[3]))
    [] o[1] \in {"delat", "delnode"} -> R(0, Without(s, o[2]))
    [] o[1] = "destroy" -> R(0, <<>>)
    [] o[1] = "reps" -> R(o[2], s \o TLCEval([i \in 1..o[2] |-> i % 30]))

\* many names at once
ABC == "abcdefghijklmnopqrstuvwxyz"
Numbered(base, j) == base \o Ch(ABC, (j \div 26) + 1) \o Ch(ABC, (j % 26) + 1)

(* -------------------------------- tries -------------------------------- *)
LEGAL == "!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|"
Rank == [c \in CharsOf(LEGAL) |-> CHOOSE i \in 1..Len(LEGAL) : Ch(LEGAL, i) = c]
RECURSIVE Before(_, _)
Before(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
                ELSE Rank[Ch(a, 1)] < Rank[Ch(b, 1)] \/ (Ch(a, 1) = Ch(b, 1) /\ Before(From(a, 2), From(b, 2)))
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE x \in S : \A y \in S : x = y \/ Before(x, y) IN <<a>> \o InOrder(S \ {a})
Empty == [x \in {} |-> 0]
TrieDo(s, o) ==
  CASE o[1] = "add" -> IF o[2] \in DOMAIN s THEN R(0, s) ELSE R(1, [x \in DOMAIN s \cup {o[2]} |-> IF x = o[2] THEN o[3] ELSE s[x]])
    [] o[1] = "rem" -> R(0, [x \in DOMAIN s \ {o[2]} |-> s[x]])
    [] o[1] = "adds" -> LET I == {j \in 0..(o[3] - 1) : Numbered(o[2], j) \notin DOMAIN s}
                            W == TLCEval([x \in {Numbered(o[2], j) : j \in I} |-> CHOOSE j \in I : Numbered(o[2], j) = x])
                        IN R(Cardinality(I), TLCEval([x \in DOMAIN s \cup DOMAIN W |-> IF x \in DOMAIN s THEN s[x] ELSE W[x] % 30]))
    [] o[1] = "rems" -> R(o[3], TLCEval([x \in DOMAIN s \ {Numbered(o[2], j) : j \in 0..(o[3] - 1)} |-> s[x]]))
\* length of the longest nonempty string of the trie that text begins with
LongestPrefix(s, text) == LET L == {Len(w) : w \in {w \in DOMAIN s : StartsWith(text, w)}} IN
                          IF L = {} THEN 0 ELSE CHOOSE n \in L : \A m \in L : m <= n

(* --------------------------- string builders --------------------------- *)
Pad5(n) == LET t == IF n < 0 THEN "-" \o NatStr(-n) ELSE NatStr(n) IN Repeat(" ", 5 - Len(t)) \o t
StrbDo(s, o) ==
  CASE o[1] \in {"app", "chr"} -> R(0, s \o o[2])
    [] o[1] = "lit" -> R(0, s \o "100%<" \o o[2] \o "|42>")
    [] o[1] = "int" -> R(0, s \o Pad5(o[2]))
    [] o[1] = "clear" -> R(0, "")

(* --------------------------- operator tables --------------------------- *)
NoOp == [n |-> "", p |-> "", ar |-> 0, prec |-> 0, as |-> ""]
LookUp(t, p, n) == LET I == {i \in 1..Len(t) : t[i].p = p /\ t[i].n = n} IN IF I = {} THEN NoOp ELSE t[CHOOSE i \in I : TRUE]
CanAdd(t, x) == /\ LookUp(t, x.p, x.n) = NoOp
                /\ x.p = "inf" => \A i \in 1..Len(t) : t[i].p = "inf" /\ t[i].prec = x.prec => t[i].as = x.as
OpOf(o) == [n |-> o[2], p |-> o[1], ar |-> CASE o[1] = "inf" -> 2 [] o[1] = "fn" -> o[3] [] OTHER -> 1,
            prec |-> IF o[1] = "fn" THEN 0 ELSE o[3], as |-> IF o[1] = "inf" THEN o[4] ELSE ""]
Deleted(t, p, n) == SelectSeq(t, LAMBDA x : ~(x.p = p /\ x.n = n))
OpsDo(s, o) ==
  CASE o[1] = "add" -> LET x == OpOf(o[2]) IN IF CanAdd(s.t, x) THEN R(1, [s EXCEPT !.t = Append(@, x)]) ELSE R(0, s)
    [] o[1] = "addmany" -> LET x == OpOf(o[2])
                               y == OpOf(o[3])
                           IN IF ~CanAdd(s.t, x) THEN R(0, s)
                              ELSE IF ~CanAdd(Append(s.t, x), y) THEN R(0, [s EXCEPT !.t = Append(@, x)])
                              ELSE R(1, [s EXCEPT !.t = Append(Append(@, x), y)])
    [] o[1] = "del" -> IF LookUp(s.t, o[2], o[3]) = NoOp THEN R(0, s)
                       ELSE R(1, [t |-> Deleted(s.t, o[2], o[3]), g |-> IF s.g.p = o[2] /\ s.g.n = o[3] THEN NoOp ELSE s.g])
    [] o[1] = "adds" -> LET H == {s.t[i].n : i \in {i \in 1..Len(s.t) : s.t[i].p = "pre"}}
                            W == SelectSeq(TLCEval([j \in 1..o[2] |-> OpOf(<<"pre", Numbered("q", j - 1), o[3]>>)]), LAMBDA x : x.n \notin H)
                        IN R(Len(W), [s EXCEPT !.t = @ \o W])
    [] o[1] = "dels" -> LET N == {Numbered("q", j) : j \in 0..(o[2] - 1)}
                            t == SelectSeq(s.t, LAMBDA x : ~(x.p = "pre" /\ x.n \in N))
                        IN R(Len(s.t) - Len(t), [t |-> t, g |-> IF s.g.p = "pre" /\ s.g.n \in N THEN NoOp ELSE s.g])
    [] o[1] = "noglue" -> R(1, [s EXCEPT !.g = NoOp])
    [] o[1] = "glue" -> LET x == LookUp(s.t, o[2], o[3]) IN
                        IF x = NoOp THEN R(-3, s) ELSE IF x.ar \in {2, -1} THEN R(1, [s EXCEPT !.g = x]) ELSE R(0, s)
KnownNames(s) == {s.t[i].n : i \in 1..Len(s.t)}

(* --------------------------------- all --------------------------------- *)
Start(kind) == CASE kind \in {"vec", "list"} -> <<>> [] kind = "trie" -> Empty [] kind = "strb" -> ""
                 [] kind = "ops" -> [t |-> <<>>, g |-> NoOp]
Allowed(kind, s, o) == CASE kind = "vec" -> VecOk(s, o) [] kind = "list" -> ListOk(s, o) [] OTHER -> TRUE
Do(kind, s, o) == CASE kind = "vec" -> VecDo(s, o) [] kind = "list" -> ListDo(s, o) [] kind = "trie" -> TrieDo(s, o)
                    [] kind = "strb" -> StrbDo(s, o) [] kind = "ops" -> OpsDo(s, o)
=============================================================================
