-------------------------------- MODULE Batch --------------------------------
(***************************************************************************)
(* The program as a process that is not connected to a terminal: from its  *)
(* arguments and its standard input to its output and exit status.         *)
(***************************************************************************)
EXTENDS Session

\* lines of a text; the last one need not be terminated
RECURSIVE LinesOf(_)
LinesOf(t) == IF t = "" THEN <<>>
              ELSE LET i == Find(t, "\n", 1) IN
                   IF i = 0 THEN <<t>> ELSE <<SubSeq(t, 1, i - 1)>> \o LinesOf(From(t, i + 1))

Switches == {"--interactive", "-i", "--quiet", "-q", "--help", "-h", "--version", "-v"}
IsC(a) == a \in {"-c", "--commands"}
\* number of arguments before the commands
CAt(args) == IF \E i \in 1..Len(args) : IsC(args[i]) THEN CHOOSE i \in 1..Len(args) : IsC(args[i]) /\ \A j \in 1..(i - 1) : ~IsC(args[j]) ELSE 0
Given(args, n, names) == \E i \in 1..n : args[i] \in names

Glue(a, b) == IF a = UText \/ b = UText THEN UText ELSE a \o b
Res(status, out, err, sure) == [status |-> status, out |-> out, err |-> err, sure |-> sure]
Status(ok) == IF ok THEN 0 ELSE 1

\* commands given by -c, from the i-th one on: [s, acc, stop]
RECURSIVE Commands(_, _, _, _, _)
Commands(fs, s, cmds, i, acc) ==
  IF i > Len(cmds) THEN [s |-> s, r |-> acc, stop |-> FALSE]
  ELSE LET r == Exec(fs, FALSE, s, cmds[i])
           sum == [acc EXCEPT !.ok = r.ok, !.out = Glue(@, r.out), !.err = Glue(@, r.err)]
       IN IF r.s.quit THEN [s |-> r.s, r |-> sum, stop |-> TRUE]
          ELSE IF ~r.ok
          THEN [s |-> r.s, r |-> [sum EXCEPT !.err = Glue(@, "Error occurred in command " \o NatStr(i) \o "\n")], stop |-> TRUE]
          ELSE Commands(fs, r.s, cmds, i + 1, sum)

Program(fs, args, stdin) ==
  LET at == CAt(args)
      n == IF at = 0 THEN Len(args) ELSE at - 1
  IN
  IF \E i \in 1..n : args[i] \notin Switches THEN Res(1, "", UText, TRUE)
  ELSE IF Given(args, n, {"--help", "-h", "--version", "-v"}) THEN Res(0, UText, "", TRUE)
  ELSE LET
    c == Commands(fs, S0, IF at = 0 THEN <<>> ELSE SubSeq(args, at + 1, Len(args)), 1, React(S0, TRUE, "", ""))
  IN
  IF c.stop \/ (at > 0 /\ ~Given(args, n, {"--interactive", "-i"}))
  THEN Res(Status(c.r.ok), c.r.out, c.r.err, c.s.sure)
  ELSE LET r == RunLines(fs, c.s, LinesOf(stdin), React(S0, TRUE, "", ""))
       IN Res(Status(r.ok), Glue(c.r.out, r.out), Glue(c.r.err, r.err), r.s.sure)
=============================================================================
