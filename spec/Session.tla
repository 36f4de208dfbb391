------------------------------ MODULE Session --------------------------------
(***************************************************************************)
(* A session with the calculator: what each input line prints and does to  *)
(* the state.                                                              *)
(*                                                                         *)
(* State: defs - user definitions [n, ps, body] in the order they were     *)
(*               made; body refers to no user definition any more          *)
(*        hist - numeric results, newest last                              *)
(*        rules - the seven simplification rulesets in force, or <<>>      *)
(*        sure - FALSE once the model had to give up (untracked numbers)   *)
(*        quit - the quit command has been carried out                     *)
(* A reaction to a line is [s |-> new state, ok, out, err], out being      *)
(* UText when the model does not know the text, err likewise.              *)
(* fs maps names of files to sequences of lines.                           *)
(***************************************************************************)
EXTENDS Eval, Printer, OpTable
Rewriting == INSTANCE Simplify

MaxParams == 10
S0 == [defs |-> <<>>, hist |-> <<>>, rules |-> <<>>, sure |-> TRUE, quit |-> FALSE]

React(s, ok, out, err) == [s |-> s, ok |-> ok, out |-> out, err |-> err]
Lost(s) == React([s EXCEPT !.sure = FALSE], TRUE, UText, UText)

(* --------------------------- names and calls -------------------------- *)
DefNames(defs) == {defs[i].n : i \in 1..Len(defs)}
DefOf(defs, n) == CHOOSE d \in {defs[i] : i \in 1..Len(defs)} : d.n = n
\* what is known under these definitions, and additionally extra (a function)
CtxOf(defs, extra) ==
  [Arith EXCEPT !.fn = extra @@ [n \in DefNames(defs) |-> Len(DefOf(defs, n).ps)] @@ ArithFn]

\* every call replaced by the body with the arguments for the parameters
RECURSIVE Expand(_, _)
Expand(defs, x) ==
  IF x.k # "op" THEN x
  ELSE LET c == [i \in 1..Len(x.c) |-> Expand(defs, x.c[i])] IN
       IF x.p = "fn" /\ x.n \in DefNames(defs)
       THEN LET d == DefOf(defs, x.n) IN
            Subst(Retoken(d.body, x.t), [p \in {d.ps[i] : i \in 1..Len(d.ps)} |-> c[CHOOSE i \in 1..Len(d.ps) : d.ps[i] = p]])
       ELSE [x EXCEPT !.c = c]

(* ------------------------------ messages ------------------------------ *)
Marker(inter, pos, len, msg) ==
  IF ~inter THEN msg \o "\n"
  ELSE IF pos > Len(msg) THEN Repeat(" ", pos - Len(msg) - 1) \o msg \o " " \o Repeat("~", len - 1) \o "^\n"
  ELSE Repeat(" ", pos) \o "^" \o Repeat("~", len - 1) \o " " \o msg \o "\n"

RECURSIVE LenUpTo(_, _)
LenUpTo(toks, n) == IF n = 0 THEN 0 ELSE Len(toks[n]) + LenUpTo(toks, n - 1)
AtToken(inter, toks, at, base, msg) ==
  Marker(inter, base + LenUpTo(toks, at), IF at < Len(toks) THEN Len(toks[at + 1]) ELSE 1, "Error: " \o msg)

ParseMsg(e) ==
  CASE e = "EXPECTED_INFIX" -> "Expected infix or postfix operator"
    [] e = "UNEXPECTED_INFIX" -> "Unexpected infix or postfix operator"
    [] e = "EXCESS_OPENING_PAREN" -> "Missing closing parenthesis"
    [] e = "UNEXPECTED_CLOSING_PAREN" -> "Unexpected closing parenthesis"
    [] e = "UNEXPECTED_DELIMITER" -> "Unexpected delimiter"
    [] e = "FUNCTION_WRONG_ARITY" -> "Wrong number of operands of function"
    [] e = "UNEXPECTED_END_OF_EXPR" -> "Unexpected end of expression"
    [] e = "EXPECTED_PARAM_LIST" -> "Expected an opening parenthesis"
    [] e = "UNEXPECTED_CHARACTER" -> "Unexpected character"
EvalMsg(e) ==
  CASE e = "HISTORY_NOT_SET" -> "This part of the history is not set yet"
    [] e = "MALFORMED_DERIV_A" -> "More than one variable in expr'"
    [] e = "MALFORMED_DERIV_B" -> "Second operand of function 'deriv' must be variable"
    [] e = "UNKNOWN_OP" -> "No evaluation of operator possible"
    [] e = "IMPOSSIBLE_DERIV" -> "Expression not continuously differentiable"
    [] e = "DIVISION_BY_ZERO" -> "Division by zero"
    [] e = "COMPLEX_SOLUTION" -> "Complex solution"

(* ----------------------- reading an expression ------------------------ *)
Fuel == 120      \* rule applications the model follows
\* value of a simplified expression without variables
ValueOf(x, hist) == LET r == Value(x, hist) IN IF r.e = "" THEN r.v ELSE U
\* [e |-> "" / "?" / "x", err |-> message, x |-> tree]
Raw(inter, ctx, text, base) ==
  LET toks == Tokenize(Names(ctx), text)
      p == Parse(ctx, toks)
  IN IF p.err # "" THEN [e |-> "x", err |-> AtToken(inter, toks, p.at, base, ParseMsg(p.err)), x |-> p.tree, toks |-> toks]
     ELSE [e |-> "", err |-> "", x |-> p.tree, toks |-> toks]
Simp(inter, s, raw, base) ==
  LET x == Expand(s.defs, raw.x)
      R == Rewriting!Simplified(s.rules, x, s.hist, Fuel)
      r == IF s.rules = <<>> THEN Reduce0(x, s.hist) ELSE [e |-> IF R.u THEN "?" ELSE R.e, x |-> R.x, t |-> R.t]
  IN
  IF r.e = "" THEN [e |-> "", err |-> "", x |-> r.x]
  ELSE IF r.e = "?" THEN [e |-> "?", err |-> UText, x |-> r.x]
  ELSE [e |-> "x", err |-> AtToken(inter, raw.toks, r.t, base, EvalMsg(r.e)), x |-> r.x]
Read(inter, s, text, base) ==
  LET raw == Raw(inter, CtxOf(s.defs, <<>>), text, base) IN
  IF raw.e # "" THEN [e |-> raw.e, err |-> raw.err, x |-> raw.x] ELSE Simp(inter, s, raw, base)

Refuse(s, e, err) == IF e = "?" THEN Lost(s) ELSE React(s, FALSE, "", err)

(* ----------------------------- evaluation ----------------------------- *)
Evaluate(inter, s, line) ==
  LET r == Read(inter, s, line, 0) IN
  IF r.e # "" THEN Refuse(s, r.e, r.err)
  ELSE React([s EXCEPT !.hist = IF NoVars(r.x) THEN Append(@, ValueOf(r.x, s.hist)) ELSE @], TRUE,
             IF Tracked(r.x) THEN (IF inter THEN "= " ELSE "") \o TreeText(CtxOf(s.defs, <<>>), r.x) \o "\n" ELSE UText, "")

(* ----------------------------- definition ----------------------------- *)
NotBlank(t) == ~IsBlank(t)
Define(inter, s, line) ==
  LET eq == Find(line, "=", 1)
      left == SubSeq(line, 1, eq - 1)
      right == SubSeq(line, eq + 1, Len(line))
      ctx0 == CtxOf(s.defs, <<>>)
      toks == SelectSeq(Tokenize(Names(ctx0), left), NotBlank)
      Whole(msg) == React(s, FALSE, "", Marker(inter, 0, Len(left), msg))
      Say(msg) == React(s, FALSE, "", msg)
  IN
  IF toks = <<>> THEN Whole("Error: Not a function or constant")
  ELSE LET name == toks[1] IN
  IF ~IsLetter(Ch(name, 1)) THEN Whole("Error: Not a function or constant")
  ELSE IF name \in DOMAIN ArithFn THEN Say("Error: Built-in functions can not be redefined\n")
  ELSE IF name \in DefNames(s.defs) THEN Say("Error: Function or constant already defined. Use clear command before redefinition\n")
  ELSE LET
    single == Len(toks) = 1
    lraw == Raw(inter, CtxOf(s.defs, name :> (IF single THEN 0 ELSE -1)), left, 0)
  IN IF lraw.e # "" THEN React(s, FALSE, "", lraw.err)
  ELSE LET x == lraw.x IN
  IF ~(x.k = "op" /\ (IF x.k = "op" THEN x.p = "fn" ELSE FALSE)) THEN Whole("Error: Not a function or constant")
  ELSE IF \E i \in 1..Len(x.c) : x.c[i].k # "var" THEN Whole("Error: Function arguments must be variables")
  ELSE IF Cardinality(VarsOf(x)) > MaxParams THEN Whole("Too many function parameters. Maximum is 10.")
  ELSE IF Cardinality(VarsOf(x)) # Len(x.c) THEN Whole("Error: Function arguments must be distinct variables")
  ELSE LET
    ps == [i \in 1..Len(x.c) |-> x.c[i].n]
    ctx == CtxOf(s.defs, name :> Len(ps))
    raw == Raw(inter, ctx, right, eq)
  IN IF raw.e # "" THEN React(s, FALSE, "", raw.err)
  ELSE IF UsesFn(raw.x, name) THEN Say("Error: Recursive definition\n")
  ELSE LET r == Simp(inter, s, raw, eq) IN
  IF r.e # "" THEN Refuse(s, r.e, r.err)
  ELSE IF ~(VarsOf(r.x) \subseteq VarsOf(x)) THEN Say("Error: Unbound variable\n")
  ELSE React([s EXCEPT !.defs = Append(@, [n |-> name, ps |-> ps, body |-> r.x])], TRUE,
             IF ~inter THEN ""
             ELSE IF Len(ps) > 0 THEN "Added function.\n"
             ELSE IF single THEN "Added constant.\n"
             ELSE "Added constant. Note: constants don't require a parameter list.\n", "")

(* ------------------------------- clear -------------------------------- *)
Clear(inter, s, line) ==
  IF line = "clear"
  THEN React([s EXCEPT !.defs = <<>>], TRUE, IF inter THEN "All functions and constants cleared\n" ELSE "", "")
  ELSE LET n == From(line, 7) IN
  IF n \in DefNames(s.defs)
  THEN LET const == DefOf(s.defs, n).ps = <<>>
           Keep(d) == d.n # n
       IN React([s EXCEPT !.defs = SelectSeq(@, Keep)], TRUE,
                IF ~inter THEN "" ELSE IF const THEN "Constant removed\n" ELSE "Function removed\n", "")
  ELSE IF n \in DOMAIN ArithFn THEN React(s, FALSE, "", "Built-in functions can not be removed\n")
  ELSE React(s, FALSE, "", Marker(inter, 6, Len(n), "Error: Unknown function or constant"))

(* ------------------------------- table -------------------------------- *)
\* pieces of text between the delimiters, each with its 0-based position
RECURSIVE Split(_, _, _)
Split(t, base, delims) ==
  IF delims = <<>> THEN <<[t |-> t, p |-> base]>>
  ELSE LET i == Find(t, Head(delims), 1)
           d == Len(Head(delims))
       IN IF i = 0 THEN <<[t |-> t, p |-> base]>>
          ELSE <<[t |-> SubSeq(t, 1, i - 1), p |-> base]>> \o Split(From(t, i + d), base + i + d - 1, Tail(delims))
Trim(a) == [t |-> Strip(a.t), p |-> a.p + (Len(a.t) - Len(LStrip(a.t)))]

RECURSIVE Pad0(_, _)
Pad0(f, n) == IF Len(f) >= n THEN f ELSE Pad0(f \o "0", n)
Fixed(a) ==        \* with ten decimals
  CASE a = U \/ a = NaN -> UText
    [] a = Inf -> "inf"
    [] a = NInf -> "-inf"
    [] a = NZero -> "-0.0000000000"
    [] OTHER -> (IF IsNeg(a) THEN "-" ELSE "") \o NatStr(Abs(a[1]) \div a[2]) \o "."
                \o Pad0(FracText(Abs(a[1]) % a[2], a[2]), 10)

MaxRows == 400
\* rows [x, e, v] for x from a in steps of st while not beyond b
RECURSIVE Rows(_, _, _, _, _)
Rows(hist, f, a, b, st) ==      \* f: [x |-> tree, v |-> variable or ""]
  IF a = U THEN <<[x |-> U, e |-> "?", v |-> U]>>
  ELSE IF IF IsNeg(st) THEN NCmp(a, b) < 0 ELSE NCmp(a, b) > 0 THEN <<>>
  ELSE LET r == Value(Subst(f.x, [n \in {f.v} |-> NumNode(a, 0)]), hist) IN
       <<[x |-> a, e |-> r.e, v |-> r.v]>> \o Rows(hist, f, NAdd(a, st), b, st)
RECURSIVE FoldRows(_, _, _, _)
FoldRows(hist, g, acc, rows) ==     \* [e, v]
  IF rows = <<>> THEN [e |-> "", v |-> acc]
  ELSE IF Head(rows).e # "" THEN FoldRows(hist, g, acc, Tail(rows))
  ELSE LET r == Value(Subst(g, [n \in {"x", "y"} |-> IF n = "x" THEN NumNode(acc, 0) ELSE NumNode(Head(rows).v, 0)]), hist)
       IN IF r.e # "" THEN [e |-> "?", v |-> U] ELSE FoldRows(hist, g, r.v, Tail(rows))

RECURSIVE MaxLenOf(_)
MaxLenOf(ts) == IF ts = <<>> THEN 0 ELSE MaxOf(Len(Head(ts)), MaxLenOf(Tail(ts)))
Right(t, w) == Repeat(" ", w - Len(t)) \o t
\* lines of cells, each column as wide as its widest cell, to the right
GridText(rows) ==
  LET cols == Len(rows[1])
      w == TLCEval([c \in 1..cols |-> MaxLenOf([r \in 1..Len(rows) |-> rows[r][c]])])
  IN Concat([r \in 1..Len(rows) |-> Concat([c \in 1..cols |-> Right(rows[r][c], w[c])]) \o "\n"])

TableUsage == "Error: Invalid syntax. Syntax is:\ntable <expr> ; <from> ; <to> ; <step> [fold <expr> ; <init>]\n"

RECURSIVE FirstBad(_)
FirstBad(rs) == IF rs = <<>> THEN [e |-> "", err |-> ""]
                ELSE IF Head(rs).e # "" THEN [e |-> Head(rs).e, err |-> Head(rs).err]
                ELSE FirstBad(Tail(rs))

TableCmd(inter, s, line) ==
  LET parts == Split(From(line, 7), 6, <<";", ";", ";", " fold ", ";">>)
      a == [i \in 1..Len(parts) |-> Trim(parts[i])]
      n == Len(a)
      ctx == CtxOf(s.defs, <<>>)
      Fail1(i, msg) == React(s, FALSE, "", Marker(inter, a[i].p, Len(a[i].t), msg))
  IN
  IF n \notin {4, 6} THEN React(s, FALSE, "", TableUsage)
  ELSE LET
    raw == Raw(inter, ctx, a[1].t, a[1].p)
  IN IF raw.e # "" THEN React(s, FALSE, "", raw.err)
  ELSE LET ex == Simp(inter, s, raw, a[1].p) IN
  IF ex.e # "" THEN Refuse(s, ex.e, ex.err)
  ELSE IF Cardinality(VarsOf(ex.x)) > 1 THEN Fail1(1, "Error: More than one variable")
  ELSE LET
    bounds == [i \in 1..3 |-> Read(inter, s, a[i + 1].t, a[i + 1].p)]
    bad == FirstBad(bounds)
    open == {i \in 1..3 : ~NoVars(bounds[i].x)}
  IN IF bad.e # "" THEN Refuse(s, bad.e, bad.err)
  ELSE IF open # {} THEN Fail1(1 + CHOOSE i \in open : \A j \in open : i <= j, "Error: Not constant")
  ELSE LET
    from == ValueOf(bounds[1].x, s.hist)
    to == ValueOf(bounds[2].x, s.hist)
    step0 == ValueOf(bounds[3].x, s.hist)
  IN IF ~(Known(from) /\ Known(to) /\ Known(step0)) \/ NaN \in {from, to, step0} THEN Lost(s)
  ELSE IF IsZero(step0) THEN Fail1(4, "Error: 'step' must not be zero")
  ELSE IF ~Finite(from) THEN Fail1(2, "Error: Not finite")
  ELSE IF ~Finite(to) THEN Fail1(3, "Error: Not finite")
  ELSE LET
    folds == IF n = 6 THEN <<Read(inter, s, a[5].t, a[5].p), Read(inter, s, a[6].t, a[6].p)>> ELSE <<>>
    fbad == FirstBad(folds)
  IN IF fbad.e # "" THEN Refuse(s, fbad.e, fbad.err)
  ELSE IF (IF n = 6 THEN ~(VarsOf(folds[1].x) \subseteq {"x", "y"}) ELSE FALSE)
  THEN Fail1(5, "Error: Fold expression must not contain any variables except 'x' and 'y'")
  ELSE IF (IF n = 6 THEN ~NoVars(folds[2].x) ELSE FALSE) THEN Fail1(6, "Error: Not constant")
  ELSE IF ~Finite(step0) THEN Lost(s)
  ELSE LET
    up == NCmp(from, to)
    step == IF (up < 0 /\ IsNeg(step0)) \/ (up > 0 /\ ~IsNeg(step0)) THEN NNeg(step0) ELSE step0
    reach == NAdd(from, NMul(step, NInt(MaxRows)))
  IN IF IF reach = U THEN TRUE ELSE IF IsNeg(step) THEN NCmp(reach, to) > 0 ELSE NCmp(reach, to) < 0 THEN Lost(s)
  ELSE LET
    var == IF VarsOf(ex.x) = {} THEN "" ELSE CHOOSE v \in VarsOf(ex.x) : TRUE
    rows == TLCEval(Rows(s.hist, [x |-> ex.x, v |-> var], from, to, step))
    unsure == \E i \in 1..Len(rows) : rows[i].e = "?" \/ (rows[i].e = "" /\ Fixed(rows[i].v) = UText) \/ Fixed(rows[i].x) = UText
    fold == IF n = 6 THEN FoldRows(s.hist, folds[1].x, ValueOf(folds[2].x, s.hist), rows) ELSE [e |-> "", v |-> Zero]
    Cells(i) == (IF inter THEN <<" " \o NatStr(i) \o " ">> ELSE <<>>) \o <<" " \o Fixed(rows[i].x) \o " ",
                  IF rows[i].e = "" THEN " " \o Fixed(rows[i].v) \o " " ELSE " Error ">>
    head == IF inter THEN <<<<"", IF var = "" THEN "" ELSE " " \o var \o " ", " " \o TreeText(ctx, raw.x) \o " ">>>> ELSE <<>>
    foldText == IF n = 6 THEN "Fold result: " \o NumText(fold.v) \o "\n" ELSE ""
    known == ~unsure /\ fold.e = "" /\ (n = 6 => NumText(fold.v) # UText) /\ (inter => Tracked(raw.x))
  IN React([s EXCEPT !.hist = IF n = 6 THEN Append(@, IF unsure \/ fold.e # "" THEN U ELSE fold.v) ELSE @], TRUE,
           IF ~known THEN UText ELSE GridText(TLCEval(head \o [i \in 1..Len(rows) |-> Cells(i)])) \o foldText, "")

(* --------------------------- rules of a file --------------------------- *)
RECURSIVE NumRules(_)
NumRules(sets) == IF sets = <<>> THEN 0 ELSE Len(Head(sets)) + NumRules(Tail(sets))
\* files may come with what reading their rules gives, under "rules:" and their name
Dirs == {".", "..", "/"}        \* can be opened, but not be read
RulesIn(fs, f) == IF f \in Dirs THEN Rewriting!ReadLines(<<>>, 1, 7, <<>>, 0) ELSE IF ("rules:" \o f) \in DOMAIN fs THEN fs["rules:" \o f] ELSE Rewriting!ReadLines(fs[f], 1, 7, <<>>, 0)
LoadRules(fs, inter, s, f) ==
  IF DOMAIN fs \cap {f, "rules:" \o f} = {} /\ f \notin Dirs THEN React(s, FALSE, "", "File not found or readable\n")
  ELSE LET r == RulesIn(fs, f)
           ign == Repeat("Ignored non-comment line before first ruleset.\n", r.ign)
       IN IF r.n = -1 THEN React(s, FALSE, "", UText)
          ELSE IF r.n # 7 THEN React(s, FALSE, "", ign \o "Too few simplification rulesets defined in " \o f \o ".\n")
          ELSE React([s EXCEPT !.rules = r.sets], TRUE,
                     IF inter THEN "Successfully loaded simplification (" \o NatStr(NumRules(r.sets)) \o " rules)\n" ELSE "", ign)

(* -------------------------------- lines ------------------------------- *)
IsSilent(line) == line = "" \/ Ch(line, 1) = "#"
RECURSIVE Exec(_, _, _, _), RunLines(_, _, _, _)
\* all lines of a file: [s, ok, out, err]
RunLines(fs, s, lines, acc) ==
  IF lines = <<>> \/ s.quit THEN [acc EXCEPT !.s = s]
  ELSE LET r == Exec(fs, FALSE, s, Head(lines)) IN
       RunLines(fs, r.s, Tail(lines),
                [acc EXCEPT !.ok = @ /\ r.ok,
                            !.out = IF @ = UText \/ r.out = UText THEN UText ELSE @ \o r.out,
                            !.err = IF @ = UText \/ r.err = UText THEN UText ELSE @ \o r.err])
Exec(fs, inter, s, line) ==
  CASE ~s.sure -> Lost(s)
    [] s.sure /\ line = "quit" -> React([s EXCEPT !.quit = TRUE], TRUE, "", "")
    [] s.sure /\ IsSilent(line) -> React(s, TRUE, "", "")
    [] s.sure /\ ~IsSilent(line) /\ line # "quit" ->
  CASE line \in {"help", "help operators", "license"} -> React(s, TRUE, UText, "")
    [] StartsWith(line, "table ") -> TableCmd(inter, s, line)
    [] ~StartsWith(line, "table ") /\ Find(line, "=", 1) > 0 -> Define(inter, s, line)
    [] line = "clear" \/ (StartsWith(line, "clear ") /\ Find(line, "=", 1) = 0) -> Clear(inter, s, line)
    [] StartsWith(line, "load ") /\ Find(line, "=", 1) = 0 ->
         IF StartsWith(line, "load simplification ")
         THEN LoadRules(fs, inter, s, From(line, 21))
         ELSE LET f == From(line, 6) IN
              IF f \in DOMAIN fs THEN RunLines(fs, s, fs[f], React(s, TRUE, "", ""))
              ELSE React(s, FALSE, "", IF f \in Dirs THEN "Error loading file: Could not be read\n" ELSE "Error loading file: No such file or directory\n")
    [] OTHER -> Evaluate(inter, s, line)
=============================================================================
