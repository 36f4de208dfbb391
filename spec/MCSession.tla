------------------------------ MODULE MCSession ------------------------------
(***************************************************************************)
(* All sessions of Depth lines over an alphabet of lines, and what must    *)
(* hold of them.  Leaves are printed; they are replayed in the real code.  *)
(***************************************************************************)
EXTENDS Help, Json, IOUtils

Cfg == ndJsonDeserialize(IOEnv.ALPHABET)[1]     \* [lines, files, probes, inter, depth]
Lines == Cfg.lines
Files == Cfg.files
IsInter == Cfg.inter = 1
VARIABLES s, log
vars == <<s, log>>

Init == s = S0 /\ log = <<>>
Next == /\ Len(log) < Cfg.depth
        /\ \E i \in 1..Len(Lines) :
             LET r == Exec(Files, IsInter, s, Lines[i]) IN
             /\ s' = r.s
             /\ log' = Append(log, [l |-> Lines[i], ok |-> r.ok, out |-> r.out, err |-> r.err])
Spec == Init /\ [][Next]_vars

(* ----------------------------- invariants ----------------------------- *)
Last == log'[Len(log')]
IsLoad == StartsWith(Last.l, "load ")
IsRules == StartsWith(Last.l, "load simplification ")
IsTable == StartsWith(Last.l, "table ")
IsDef == Find(Last.l, "=", 1) > 0 /\ ~IsTable
IsEval == ~IsLoad /\ ~IsTable /\ ~IsDef /\ ~StartsWith(Last.l, "clear") /\ ~IsSilent(Last.l)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* a failing command changes nothing and has no result; a succeeding one reports nothing
FailChangesNothing ==
  (~Last.ok /\ ~IsLoad) => (s' = s /\ Last.out = "" /\ Last.err # "")
SuccessIsQuiet == Last.ok /\ ~IsLoad => Last.err = ""   \* rule files may be warned of
\* only evaluations and folds add to the history, at most one entry, never altering older ones
HistoryGrows ==
  /\ Prefix(s.hist, s'.hist)
  /\ ~IsLoad => Len(s'.hist) <= Len(s.hist) + 1
  /\ Len(s'.hist) > Len(s.hist) => Last.ok \/ IsLoad
  /\ (s'.hist # s.hist /\ ~IsLoad) => IsEval \/ IsTable
\* names are bound by definitions and unbound by clear only
NamesBound ==
  ~IsLoad =>
  LET a == DefNames(s.defs)
      b == DefNames(s'.defs)
  IN CASE IsDef -> IF Last.ok THEN a \subseteq b /\ Cardinality(b) = Cardinality(a) + 1 ELSE a = b
       [] Last.l = "clear" -> b = {}
       [] StartsWith(Last.l, "clear ") -> IF Last.ok THEN b = a \ {From(Last.l, 7)} /\ a # b ELSE a = b
       [] OTHER -> a = b
\* a definition that stays keeps its meaning
DefsKeep == \A d \in {s.defs[i] : i \in 1..Len(s.defs)} :
              (d.n \in DefNames(s'.defs) /\ ~IsLoad) => DefOf(s'.defs, d.n) = d
\* rules are put in force by loading them only, all seven or none, and loading does nothing else
RulesStay ==
  /\ (s'.rules # s.rules) => IsLoad
  /\ (IsRules /\ Last.ok) => s' = [s EXCEPT !.rules = s'.rules]
  /\ (IsRules /\ ~Last.ok) => s' = s
  /\ s'.rules # <<>> => Len(s'.rules) = 7
\* distinct names; bodies are closed and refer to built-in operators only
RECURSIVE OnlyBuiltIn(_)
OnlyBuiltIn(x) == x.k # "op" \/ ((x.p = "fn" => x.n \in DOMAIN ArithFn) /\ \A i \in 1..Len(x.c) : OnlyBuiltIn(x.c[i]))
TypeOK ==
  /\ \A i, j \in 1..Len(s.defs) : i # j => s.defs[i].n # s.defs[j].n
  /\ \A i \in 1..Len(s.defs) : /\ OnlyBuiltIn(s.defs[i].body)
                              /\ VarsOf(s.defs[i].body) \subseteq {s.defs[i].ps[j] : j \in 1..Len(s.defs[i].ps)}
                              /\ s.defs[i].n \notin DOMAIN ArithFn

(* Calls by value: the meaning of a definition as a function of numbers.   *)
(* Substitution has to give the same wherever both are defined.            *)
RECURSIVE ByValue(_, _, _), ByValueArgs(_, _, _, _, _)
ByValueArgs(env, x, hist, i, acc) ==
  IF i > Len(x.c) THEN [e |-> "", a |-> acc]
  ELSE LET r == ByValue(env, x.c[i], hist) IN
       IF r.e # "" THEN [e |-> r.e, a |-> acc] ELSE ByValueArgs(env, x, hist, i + 1, Append(acc, r.v))
ByValue(env, x, hist) ==
  CASE x.k = "num" -> [e |-> "", v |-> x.v]
    [] x.k = "var" -> IF x.n \in DOMAIN env THEN [e |-> "", v |-> env[x.n]] ELSE [e |-> "VAR", v |-> U]
    [] x.k = "op"  ->
       LET a == ByValueArgs(env, x, hist, 1, <<>>) IN
       IF a.e # "" THEN [e |-> a.e, v |-> U]
       ELSE IF x.p = "fn" /\ x.n \in DefNames(s.defs)
       THEN LET d == DefOf(s.defs, x.n) IN
            ByValue([p \in {d.ps[i] : i \in 1..Len(d.ps)} |-> a.a[CHOOSE i \in 1..Len(d.ps) : d.ps[i] = p]], d.body, hist)
       ELSE LET r == EvalOp(x.p, x.n, a.a, hist) IN [e |-> r.e, v |-> r.v]
Substitution ==
  \A i \in 1..Len(Cfg.probes) :
    LET raw == Raw(FALSE, CtxOf(s.defs, <<>>), Cfg.probes[i], 0) IN
    (raw.e = "" /\ s.sure) =>
      LET x == Expand(s.defs, raw.x)
          a == ByValue(<<>>, raw.x, s.hist)
          b == Value(x, s.hist)
      IN (NoVars(x) /\ a.e = "") => (b.e = "" /\ b.v = a.v)

ListedAgain == Relisted(s)

Steps == FailChangesNothing /\ SuccessIsQuiet /\ HistoryGrows /\ NamesBound /\ DefsKeep /\ RulesStay
StepsOK == [][s'.sure => Steps]_vars
Emit == Len(log) = Cfg.depth => PrintT("LEAF " \o ToJson([i \in 1..Len(log) |-> [ok |-> IF log[i].ok THEN 1 ELSE 0, l |-> log[i].l, out |-> log[i].out, err |-> log[i].err]]))
=============================================================================
