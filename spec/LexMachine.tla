----------------------------- MODULE LexMachine ------------------------------
(***************************************************************************)
(* The tokenizer as a machine that walks over the text with the start of   *)
(* the current token and the class of its characters; the design theorem   *)
(* says that it computes Tokenize of Lexer, which in turn loses no text    *)
(* and never cuts a run of letters.                                        *)
(***************************************************************************)
EXTENDS Lexer, FiniteSets
CONSTANTS Kws, Chars, MaxLen
VARIABLES text
ClassOf(c) == IF IsDigit(c) THEN "digit" ELSE IF IsLetter(c) THEN "letter" ELSE "other"
\* i: next character, st: start of the pending token, cls: its class
RECURSIVE Walk(_, _, _, _, _)
Walk(s, i, st, cls, out) ==
  IF i > Len(s) THEN IF st <= Len(s) THEN Append(out, SubSeq(s, st, Len(s))) ELSE out
  ELSE LET c == ClassOf(Ch(s, i))
           flush == cls # "new" /\ (c # cls \/ c = "other") /\ st < i
           out1 == IF flush THEN Append(out, SubSeq(s, st, i - 1)) ELSE out
           st1 == IF flush THEN i ELSE st
           k == IF c = "letter" THEN 0 ELSE LongestKeyword(Kws, s, i)
       IN IF k > 0
          THEN Walk(s, i + k, i + k, "new",
                    Append(IF st1 < i THEN Append(out1, SubSeq(s, st1, i - 1)) ELSE out1, SubSeq(s, i, i + k - 1)))
          ELSE Walk(s, i + 1, st1, c, out1)
Init == text = ""
Next == Len(text) < MaxLen /\ \E c \in Chars : text' = text \o c
Computes == Walk(text, 1, 1, "new", <<>>) = Tokenize(Kws, text)
Loses    == Lossless(Kws, text)
Shape    == TokenShape(Kws, text)
Runs     == MaximalRuns(Kws, text)
=============================================================================
